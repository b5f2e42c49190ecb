"""
Obligations: the value-flow term of client code that uses the package must be
the same as that of a specification written from the property's text.
"""
import ast
import time
import traceback

from .engine import *
from .terms import *
from . import diff as D
from .diff import Cmp, EQ, DIFF, UND, R, diff, und

HEAD = '''
import numpy as np
import numpy
import tables
import itertools
import os, os.path, glob, re, warnings
from configparser import ConfigParser
from flowtracks.trajectory import Trajectory, ParticleSnapshot
'''

REG = []
LIMIT = 60      # seconds for comparing


class Ob(object):
    """
    prop, name - the property and the clause of it
    text - source with functions ``impl`` (uses the package) and ``spec``
    params - 'name:kind ...' arguments of both
    opaque - {qualified function: kind of its value} not looked into
    events - effects to compare: list of (kind, name or None)
    raises - also compare under which conditions exceptions come
    """
    def __init__(self, prop, name, params, text, opaque=(), events=(),
                 uses=(), facts=(), concrete=False, what='', raises=(),
                 result=True, hard=False):
        self.prop, self.name, self.text = prop, name, text
        self.params = []
        for p in params.split():
            n, _, k = p.partition(':')
            if '(' in k:
                k = tuple(['tuple'] + [x or None for x in
                                       k.strip('()').split(',')])
            self.params.append((n, k or None))
        if not isinstance(opaque, dict):
            opaque = dict((o, None) for o in opaque)
        self.opaque, self.events, self.uses = opaque, events, uses
        self.concrete, self.what, self.raises = concrete, what, raises
        self.result, self.facts = result, facts
        REG.append(self)


class Verdict(object):
    def __init__(self, ob, status, why='', a=None, b=None, called=(),
                 size=0, wall=0, note=''):
        self.ob, self.status, self.why, self.a, self.b = ob, status, why, a, b
        self.called, self.size, self.wall, self.note = called, size, wall, note

    def where(self):
        return location(self.a) or location(self.b)


def location(t, depth=8):
    """Nearest source position inside a term."""
    if t is None:
        return None
    todo = [(t, 0)]
    seen = set()
    while todo:
        x, d = todo.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.src is not None and x.src[0] != '<spec>':
            return x.src
        if d < depth:
            todo.extend((y, d + 1) for y in x.a if isinstance(y, T))
    return None


def effects(res, want):
    """Closed terms of the effects of the wanted kinds."""
    out = {}
    evs = list(res.events)
    last = {}
    for e in reversed(res.events):
        # of several assignments to the same attribute the last one counts
        if e.kind == 'setattr' and isinstance(e.term, T) and not e.loops:
            k = (e.term.a[0], e.name)
            if k in last:
                evs.remove(e)
            elif e.guard is TRUE:
                last[k] = e
    for e in evs:
        for w in want:
            if e.kind == w[0] and (w[1] is None or e.name == w[1]):
                break
        else:
            continue
        if len(w) > 2:                  # only that and when it happens
            t = mk('effect', e.kind, str(e.name), NONE, e.guard)
        else:
            t = mk('effect', e.kind, str(e.name), e.term
                   if isinstance(e.term, T) else const(str(e.term)), e.guard)
        for lp in reversed(e.loops):
            if lp.uid is None:
                continue
            n = lp.n if lp.n is not None else mk('many')
            h, (n2, t2) = close(lp.uid, [n, t])
            t = mk('foreach', h, n2, t2)
        out.setdefault((e.kind, str(e.name)), []).append((t, e))
    return out


def run(ob, sources, opts=None):
    t0 = time.time()
    try:
        v = _run(ob, sources)
    except Missing as e:
        v = Verdict(ob, DIFF, 'no %s in the package' % e)
    except Undecided as e:
        v = Verdict(ob, UND, 'not modelled: %s' % e)
    except RecursionError as e:
        v = Verdict(ob, UND, 'recursion')
    except Exception as e:
        v = Verdict(ob, UND, 'analyser: %s: %s' % (type(e).__name__, e),
                    note=traceback.format_exc(limit=-3))
    v.wall = time.time() - t0
    return v


def _run(ob, sources):
    text = HEAD + ob.text
    ri = analyse(sources, text, ob.params, name='impl', opaque=ob.opaque,
                 concrete=ob.concrete, facts=ob.facts)
    try:
        rs = analyse(sources, text, ob.params, name='spec', opaque=ob.opaque,
                     concrete=ob.concrete, facts=ob.facts)
    except Missing as e:
        raise Undecided('the specification uses %s' % e)
    called = sorted(ri.called)
    ob.last = (ri, rs)

    def V(r, what=''):
        return Verdict(ob, r.s, (what + ': ' if what else '') + r.why, r.a,
                       r.b, called)
    miss = [e for e in ri.events if e.kind == 'missing']
    if ri.dead == 'raise' and rs.dead != 'raise':
        ev = [e for e in ri.events if e.kind == 'raise']
        bad = ('NameError', 'TypeError', 'AttributeError', 'ImportError',
               'UnboundLocalError', 'KeyError', 'NoSectionError',
               'DuplicateSectionError')
        sure = [e for e in ev if e.guard is TRUE and not e.loops and
                e.name in bad]
        if sure:
            ev = sure[:1]
        if ev:
            e = ev[-1]
            if e.name in bad:
                v = Verdict(ob, DIFF, 'always raises %s: %s' % (
                    e.name, show(e.term, 3) if isinstance(e.term, T)
                    else e.term), None, None, called)
                v.a = e.term if isinstance(e.term, T) else None
                if v.a is not None and (v.a.src is None or True):
                    v.src = e.src
                v.where = lambda: e.src
                return v
        return Verdict(ob, UND, 'does not return', None, None, called)
    if rs.dead == 'raise':
        raise Undecided('specification raises')
    c = ob.cmp = Cmp()
    Cmp.until = time.time() + LIMIT
    # Changes that are not followed, unless they are those of the
    # specification too.
    lost = [[e.name for e in r.events if e.kind == 'untracked']
            for r in (ri, rs)]
    lost = lost[0] != lost[1]
    v = _outcome(ob, c, ri, rs, called, V)
    if v.status == DIFF and lost:
        v.status, v.why = UND, 'a change could not be followed'
    return v


def _outcome(ob, c, ri, rs, called, V):
    worst = None
    if ob.result:
        r = c.top(ri.value, rs.value)
        worst = V(r, 'result')
        worst.size = ri.value.sz
        if r.s == DIFF:
            return worst
    if ob.events:
        r = compare_effects(c, effects(ri, ob.events),
                            effects(rs, ob.events))
        v = V(r[0], r[1])
        if r[0].s == DIFF or worst is None or worst.status == EQ:
            worst = v
    if worst is None:
        worst = Verdict(ob, EQ, '', None, None, called)
    return worst


def compare_effects(c, A, B):
    w = (D._EQ, '')
    for k in sorted(set(A) | set(B)):
        xs = [t for t, e in A.get(k, [])]
        ys = [t for t, e in B.get(k, [])]
        for x in list(xs):
            if x in ys:
                xs.remove(x)
                ys.remove(x)
        for x in list(xs):
            for y in ys:
                if c.cmp(x, y).s == EQ:
                    xs.remove(x)
                    ys.remove(y)
                    break
        if not xs and not ys:
            continue
        if len(xs) == len(ys):
            rs = [c.top(x, y) for x, y in zip(xs, ys)]
            bad = [r for r in rs if r.s != EQ]
            r = bad[0] if len(bad) == 1 else und('effects', xs[0], ys[0])
            if len(bad) > 1 and all(
                    b.s == DIFF and (b.a, b.b) == (bad[0].a, bad[0].b)
                    for b in bad):
                r = bad[0]
            elif len(bad) > 1 and all(
                    b.s == DIFF and b.why == bad[0].why for b in bad):
                # the same calls in the same order, each with one difference
                r = bad[0]
            if r.s != DIFF and 1 < len(bad) and len(xs) < 7:
                # one that is none of those there should be
                for x in xs:
                    qs = [c.top(x, y) for y in ys]
                    if all(q.s == DIFF for q in qs):
                        r = qs[0]
                        break
        elif not xs:
            r = diff('nothing like it is done', None, ys[0])
        elif not ys:
            r = und('more is done', xs[0], None)
        else:
            r = und('effects', xs[0], ys[0])
        if r.s == DIFF:
            return r, 'effect %s' % (k,)
        if w[0].s == EQ:
            w = (r, 'effect %s' % (k,))
    return w
