"""
Loads the package's current source and computes the value-flow term of a piece
of client code that uses it.
"""
import ast
import os
import sys

from .terms import *
from . import terms as _terms
from .interp import Interp, Closure, Frame, UNDEF, ELL

sys.setrecursionlimit(20000)

REPO = os.environ.get('VSA_REPO', '/repo')


class Missing(Exception):
    """A public name an obligation speaks about is not there."""


def load_sources(repo=None):
    repo = repo or REPO
    out = {}
    pk = os.path.join(repo, 'flowtracks')
    for n in sorted(os.listdir(pk)):
        if n.endswith('.py'):
            p = os.path.join(pk, n)
            with open(p, encoding='utf-8') as f:
                txt = f.read()
            mod = 'flowtracks' if n == '__init__.py' else \
                'flowtracks.' + n[:-3]
            out[mod] = (os.path.relpath(p, repo), ast.parse(txt))
    sc = os.path.join(repo, 'scripts')
    if os.path.isdir(sc):
        for n in sorted(os.listdir(sc)):
            if n.endswith('.py'):
                p = os.path.join(sc, n)
                with open(p, encoding='utf-8') as f:
                    txt = f.read()
                t = ast.parse(txt)
                # the whole of it, as run from the command line
                m = ast.parse("def __main__():\n    __name__ = '__main__'")
                m.body[0].body.extend(ast.parse(txt).body)
                t.body.append(m.body[0])
                out['scripts.' + n[:-3]] = (os.path.relpath(p, repo), t)
    return out


class Result(object):
    pass


def analyse(sources, text, params, concrete=False, name='f', setup=None,
            facts=(), opaque=()):
    """
    Value-flow of function ``name`` in the client code ``text``.

    params - list of (name, kind) of its arguments.
    """
    src = dict(sources)
    tree = ast.parse(text)
    src['<spec>'] = ('<spec>', tree)
    it = Interp(src, concrete_sets=concrete, opaque=opaque)
    fr = it.module('<spec>')
    f = it.lookup_mod('<spec>', name)
    if f is None:
        raise Missing(name)
    it.stack = [fr]
    args = []
    for p, k in params:
        args.append(it_param(it, p, k))
    it.events = []
    it.called = set()
    for c, v in facts:
        it.facts.add((c, v))
    toks = {}
    for v in args:
        if v.op == 'param':
            toks[v] = it.fresh()
            if kind(v) in ('list', 'dict', 'set', 'traj', 'snap', 'frame'):
                toks[v] = 'c', toks[v]
            it.given.add(toks[v])
    it.argtok = toks
    r = it.call(f, args, [])
    res = Result()
    res.dead = it.dead
    it.dead = None
    res.value = it.deref(r) if r is not UNDEF else r
    res.events = it.events
    res.called = it.called
    res.it = it
    return res


def it_param(it, p, k):
    if isinstance(k, T):
        return k
    if k == 'none':
        return NONE
    if isinstance(k, tuple) and k[0] == 'tuple':
        return mk('tuple', *[it_param(it, '%s%d' % (p, i), kk)
                             for i, kk in enumerate(k[1:])])
    if isinstance(k, str) and '@' in k:     # as many rows as another one
        k, o = k.split('@')
        ok = k
        if ':' in o:
            o, ok = o.split(':')
        return mk('param', p, k, mk('param', o, ok))
    return mk('param', p, k)
