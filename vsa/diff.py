"""
Three-valued comparison of value-flow terms.

EQ    the two terms are the same node, or equal by the rules below;
DIFF  there is a witness: a matched pair of positions where one side has a
      construct that is known to give something else (another constant or
      input, a comparison of another strictness, a missing operand, another
      function of a table of functions known to be different);
UND   the terms are written differently and no rule relates them.

Only DIFF is reported.  The comparison is syntactic and bottom-up; there is no
search for models and no solving.
"""
import itertools
import time

from .terms import *
from . import terms as _t
from .seq import *
from . import witness, judge

EQ, DIFF, UND = 'eq', 'diff', 'und'


class R(object):
    __slots__ = ('s', 'why', 'a', 'b')

    def __init__(self, s, why='', a=None, b=None):
        self.s, self.why, self.a, self.b = s, why, a, b

    def __repr__(self):
        return '%s(%s: %s <> %s)' % (
            self.s, self.why, show(self.a, 5) if self.a is not None else '',
            show(self.b, 5) if self.b is not None else '')


_EQ = R(EQ)


def diff(why, a, b):
    return R(DIFF, why, a, b)


def und(why, a, b):
    return R(UND, why, a, b)


# functions that are known to give something else on the same arguments
DIFFERENT = [
    ('numpy.min', 'numpy.max', 'numpy.mean', 'numpy.sum', 'numpy.prod',
     'numpy.std', 'numpy.any', 'numpy.all', 'numpy.argmin', 'numpy.argmax',
     'numpy.median', 'numpy.var', 'numpy.cumsum', 'numpy.ptp'),
    ('min', 'max', 'sum', 'len', 'any', 'all'),
    ('numpy.zeros', 'numpy.ones'),
    ('numpy.zeros_like', 'numpy.ones_like'),
    ('numpy.exp', 'numpy.log', 'numpy.abs', 'numpy.sqrt', 'numpy.log10',
     'numpy.log2', 'numpy.expm1', 'numpy.log1p'),
    ('numpy.isnan', 'numpy.isinf', 'numpy.isfinite'),
    ('numpy.floor', 'numpy.ceil', 'numpy.round', 'numpy.rint'),
    ('numpy.minimum', 'numpy.maximum', 'numpy.fmin', 'numpy.fmax'),
    ('numpy.logspace', 'numpy.linspace', 'numpy.geomspace'),
    ('numpy.argsort', 'numpy.sort'),
    ('numpy.vstack', 'numpy.hstack', 'numpy.dstack'),
    ('int', 'float', 'str', 'bool'),
    ('numpy.nonzero', 'numpy.argsort'),
]
_FAM = {}
for _i, _f in enumerate(DIFFERENT):
    for _n in _f:
        _FAM.setdefault(_n, set()).add(_i)

# keyword arguments that do not change the numbers
SOFT_KW = frozenset(['dtype', 'copy', 'order', 'ndmin', 'kind', 'casting',
                     'title', 'expectedrows', 'subok', 'filters', 'comments',
                     'delimiter', 'header', 'encoding', 'out'])

# the same argument may be written in two ways
REL = frozenset(['axis', 'shift'])

MUST = frozenset(['tuple', 'dict', 'new', 'pair', 'struct', 'objd', 'result'])


def soft(c):
    """Conditions that guard against nothing being there: with and without
    them the same thing may come out."""
    if c.op == 'not':
        return soft(c.a[0])
    if c.op in ('and', 'or'):
        return any(soft(x) for x in c.a)
    if c.op in ('isnone', 'truth', 'exists', 'hasprop', 'count', 'exc',
                'ndim', 'brk', 'nobrk'):
        return True
    if c.op in ('eq', 'ne', 'lt', 'le'):
        for x in c.a:
            if x.op in ('len', 'count', 'shape', 'ndim') or \
                    x.op == 'sub' and x.a[0].op == 'shape' or \
                    x.op == 'add' and any(
                        y.op in ('len', 'count', 'rangelen') for y in x.a):
                return True
            if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in (
                    'numpy.sum', 'numpy.any', 'numpy.all', 'numpy.size',
                    'numpy.ndim', 'numpy.count_nonzero', 'numpy.isscalar',
                    'numpy.prod', 'isinstance', 'numpy.isnan'):
                return True
        if c.op in ('eq', 'ne') and c.a[0].op in ('ix', 'bv'):
            return False
    if c.op == 'call' and c.a[0].op == 'glob' and c.a[0].a[0] in (
            'numpy.any', 'numpy.all', 'any', 'all', 'isinstance', 'hasattr',
            'numpy.isnan', 'numpy.isinf', 'numpy.isfinite', 'callable',
            'numpy.isscalar'):
        return True
    if c.op == 'lt' and num(c.a[0]) == 0 and _intlike(c.a[1]):
        return True
    return False


def trust(c, v):
    """
    Whether a difference found where condition c has the truth value v is one:
    not where c says that there is nothing to work on, or says something of
    which not all that follows is known here.
    """
    if c.op == 'not':
        return trust(c.a[0], not v)
    if c.op in ('and', 'or'):
        return all(trust(x, v) for x in c.a)
    if c.op == 'isnone':
        return not v or c.a[0].op == 'param'
    if c.op == 'truth':
        x = c.a[0]
        return v or x.op == 'param' or reduction(x) == 'numpy.all'
    if reduction(c) == 'numpy.any':
        return v
    if reduction(c) == 'numpy.all':
        return True
    if c.op in ('eq', 'ne', 'lt', 'le') and all(
            x.op == 'len' and x.a[0].op == 'param' or x.op == 'param'
            for x in c.a) and c.a[0] is not c.a[1]:
        return True
    if c.op == 'exc':
        return not v
    if c.op in ('eq', 'ne') and (apart(*c.a) or apart(*reversed(c.a))):
        return True
    if c.op in ('eq', 'ne'):
        if c.op == 'ne':
            v = not v
        a, b = c.a
        if num(a) == 0 and (sizelike(b) or b.op == 'ndim' or reduction(b) in (
                'numpy.sum', 'numpy.count_nonzero')):
            return not v
        if num(b) == 0 and (sizelike(a) or a.op == 'ndim' or reduction(a) in (
                'numpy.sum', 'numpy.count_nonzero')):
            return not v
    if c.op in ('lt', 'le'):
        a, b = c.a
        # an argument may have any number of items above some number
        if long(b) and not contains(a, b.a[0]):
            return v or not soft(c)
        if long(a) and not contains(b, a.a[0]):
            return not v or not soft(c)
        if num(a) is not None and sizelike(b):
            return v
        if num(b) is not None and sizelike(a):
            return not v
    return not soft(c)


def between(c):
    while c.op == 'not':
        c = c.a[0]
    return c.op in ('eq', 'ne') and (apart(*c.a) or apart(*reversed(c.a))) \
        and not any(x.op in ('ix', 'acc', 'bv') for x in subterms(c))


def apart(x, y):
    """The size of one argument against that of what comes of others: they
    may be the same or not."""
    if x.op == 'tuple':
        if not x.a or x.a[0].op == 'tuple':
            return False
        ps = set(q for e in x.a for q in sized(e) or (None,))
    else:
        ps = set(sized(x) or (None,))
    if len(ps) != 1 or None in ps:
        return False
    own = set(q for e in ps for q in subterms(e) if q.op == 'param')
    if not (y.op in ('len', 'shape') or y.op == 'tuple' and y.a and all(
            e.op in ('len', 'shape') or e.op == 'sub' and
            e.a[0].op == 'shape' for e in y.a)):
        return False
    other = set(q for q in subterms(y) if q.op == 'param')
    return bool(other) and not own & other


def leftover(a, b):
    """Entries of earlier steps of a loop stay in a dictionary from which
    each step makes its item, where the other side starts each step anew."""
    A, B = leaks(a), leaks(b)
    if A and not B:
        return diff('entries of earlier steps are kept', A[0], b)
    if B and not A:
        return diff('entries of earlier steps are kept', a, B[0])
    return None


def leaks(t):
    out = []
    for f in subterms(t):
        if f.op != 'fold' or f.a[3].op != 'tuple':
            continue
        h = f.a[0]
        for x in subterms(f.a[3]):
            if x.op != 'dupdate' or x.a[0].op != 'acc' or x.a[0].a[0] != h \
                    or x.a[1].op != 'dmap':
                continue
            j, keys = x.a[0].a[1], x.a[1].a[2]
            ini = f.a[2].a[j]
            if ini.op != 'dict' or ini.a or not any(
                    y.op in ('ix', 'bv') and y.a[0] == h for y in subterms(keys)):
                continue
            for k, s in enumerate(f.a[3].a):
                if k != j and any(n.op == 'new' and contains(n, x)
                                  for n in subterms(s)):
                    out.append(x)
    return out


def sized(t):
    if t.op in ('len', 'shape'):
        return [t.a[0]] if t.a[0].op == 'param' else None
    if t.op == 'sub' and t.a[0].op == 'shape':
        return sized(t.a[0])
    return None


def long(t):
    return t.op == 'len' and t.a[0].op == 'param'


def ismask(i):
    """Chooses items by a condition on each."""
    i = plain(i)
    if i.op == 'tuple' and i.a:
        return ismask(i.a[0]) and all(x is FULL for x in i.a[1:])
    if i.op == 'map':
        return kind(i.a[2]) == 'bool' and i.a[3] is TRUE
    return i.op in ('lt', 'le', 'eq', 'ne', 'not', 'and', 'or')


def subterms(t):
    out, todo = {}, [t]
    while todo:
        x = todo.pop()
        if x not in out:
            out[x] = 1
            todo.extend(y for y in x.a if isinstance(y, T))
    return out


def fcall(x, *names):
    if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in names and \
            x.a[1].a:
        return x.a[1].a[0]
    return None


def nonneg(x):
    if kind(x) == 'bool' or x.op in ('lt', 'le', 'eq', 'ne', 'len', 'count'):
        return True
    if x.op == 'pow' and num(x.a[1]) is not None and num(x.a[1]) % 2 == 0:
        return True
    if x.op == 'mul':
        return all(nonneg(y) for y in x.a)
    return fcall(x, 'numpy.abs', 'numpy.sqrt', 'numpy.exp') is not None


def alike(x, y, parents):
    """Two functions of the same thing that are not the same function."""
    # the sum may cancel
    for p, q in ((x, y), (y, x)):
        if p.op in ('eq', 'ne') and num(p.a[0]) == 0 or \
                p.op in ('eq', 'ne') and num(p.a[1]) == 0:
            v = p.a[1] if num(p.a[0]) == 0 else p.a[0]
            s = fcall(v, 'numpy.sum', 'numpy.mean', 'sum')
            q2 = q.a[0] if q.op == 'truth' else q
            if s is not None and not nonneg(s):
                o = fcall(q2, 'numpy.any', 'any')
                if o is s:
                    return diff('terms of a sum may cancel', x, y)
        # another norm
        v = fcall(p, 'numpy.abs')
        if v is not None and q.op == 'pow' and (
                q.a[0] is v or q.a[0] is neg(v)) and \
                num(q.a[1]) is not None and parents and all(
                    fcall(z, 'numpy.sum', 'sum', 'numpy.mean') is not None
                    for z in parents):
            return diff('another norm', x, y)
    return None


def scalar_inputs(t):
    out = {}
    for x in subterms(t):
        if x.op == 'param' and x.a[1] in ('int', 'float', 'str', 'bool',
                                          'opt'):
            out[x] = 1
    return out


LOOPS = frozenset(['map', 'fold', 'dmap', 'smap', 'lsum', 'lupd', 'foreach'])


def empty_item(c):
    """Says that there is nothing in an item."""
    return c.op == 'eq' and any(num(x) == 0 for x in c.a) and any(
        sizelike(x) for x in c.a) or c.op == 'not' and empty_not(c.a[0])


def empty_not(c):
    return c.op == 'truth' and sizelike(c.a[0])


def screen(a, b):
    """What a value does not depend on at all cannot be what is asked for."""
    A = subterms(a)
    if any(x.op in ('opaque', 'unknown', 'undef') for x in A):
        return None
    for p in scalar_inputs(b):
        if p not in A and not only_tested(b, p):
            return diff('an argument has no effect', a, p)
    B = subterms(b)
    for x in A:
        s = fcall(x, 'numpy.searchsorted')
        if s is not None and len(x.a[1].a) > 1 and not any(
                k.a[0] == 'sorter' for k in x.a[2].a) and \
                len(x.a[1].a) < 4 and any_order(s) and not any(
                    fcall(y, 'numpy.searchsorted') is s for y in B):
            return diff('binary search of something in any order', x, b)
    if not any(y.op in ('until', 'whilen', 'brk') for y in B):
        for x in A:
            if x.op == 'until' and empty_item(x.a[2]) and any(
                    y.op in LOOPS and x.a[1] in y.a[1:3] for y in B):
                return diff('a loop is left early', x, x.a[1])
    for x in A:
        if x.op == 'keys' and (
                x.a[0].op == 'set' or fcall(x.a[0], 'set') is not None) and \
                x not in B and any(
                    y.op == 'sub' and y.a[0] is x and judge.reach(
                        a, y, judge.ORDERLESS | frozenset(['in', 'dmap']))
                    for y in A):
            return diff('in the order of a set', x, b)
    # all items, and just one of them
    for y in B:
        if y.op in ('map', 'fold') and y.a[1].op == 'len':
            s = y.a[1].a[0]
            if s.op not in ('param', 'prop', 'call') or not varlen(s) and \
                    kind(s) not in ('list', 'arr') and s.op != 'call':
                continue
            if s not in A:
                continue
            uses = [x for x in A if s in x.a]
            if any(x.op == 'sub' and x.a[0] is s and
                   num(x.a[1]) is not None for x in uses) and all(
                    x.op == 'sub' and x.a[0] is s and
                    num(x.a[1]) is not None or x.op == 'len'
                    for x in uses) and not any(
                        x.op == 'sub' and x.a[0] is s and
                        num(x.a[1]) is not None for x in B):
                return diff('one item stands for all', [
                    x for x in uses if x.op == 'sub'][0], y)
    return None


def inner(a, b):
    """A condition on the arguments that only one side looks at, somewhere
    inside."""
    A, B = subterms(a), subterms(b)
    cand = {}
    for X, Y in ((A, B), (B, A)):
        for x in X:
            if x.op == 'ite' and (x.a[0].sz < 12 or between(x.a[0])):
                c = x.a[0]
                cand[c] = c in Y or not_(c) in Y
    for c in sorted(cand, key=lambda c: (cand[c], c.sz)):
        at = [y for y in subterms(c) if not y.a or not any(
            isinstance(z, T) for z in y.a)]
        if between(c) or all(y.op in ('param', 'const', 'rat') for y in at):
            return c
    return None


def only_tested(t, p):
    """Only conditions of alternatives mention it."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x is p:
            return False
        if id(x) in seen:
            continue
        seen.add(id(x))
        xs = x.a[1:] if x.op == 'ite' else x.a
        todo.extend(y for y in xs if isinstance(y, T))
    return True


def any_order(s):
    """Comes in the order the user or a file has it."""
    s = plain(s)
    return s.op == 'param' or s.op == 'prop' and s.a[1] != 'time' or \
        s.op == 'sub' and s.a[0].op == 'call' and s.a[0].a[0].op == 'meth' \
        and s.a[1].op == 'const' and s.a[1].a[1] != 'time'


def reduction(x):
    if x.op == 'truth':
        x = x.a[0]
    if x.op == 'call' and x.a[0].op == 'glob' and x.a[1].a:
        return {'any': 'numpy.any', 'all': 'numpy.all'}.get(
            x.a[0].a[0], x.a[0].a[0]) if not x.a[2].a else None
    return None


def sizelike(x):
    return x.op in ('len', 'count') or x.op == 'sub' and \
        x.a[0].op == 'shape' or x.op == 'call' and x.a[0].op == 'glob' and \
        x.a[0].a[0] == 'numpy.size'


def free(c):
    """A condition on an optional argument: all that follows from it is
    known."""
    while c.op == 'not':
        c = c.a[0]
    return c.op in ('isnone', 'truth') and c.a[0].op == 'param'


def _intlike(x):
    return kind(x) == 'int'


SCALAR = frozenset(['int', 'float', 'bool', 'str'])
CONTAINER = frozenset(['list', 'tuple', 'dict', 'set'])
COMMUTE = frozenset(['min', 'max', 'numpy.minimum', 'numpy.maximum',
                     'numpy.logical_and', 'numpy.logical_or', 'math.gcd',
                     'numpy.fmin', 'numpy.fmax'])


def soft_input(x):
    return False


class Cmp(object):
    BUDGET = 60000
    until = None            # give up then

    def __init__(self):
        self.memo = {}
        self.n = 0
        self.split = [0, 0]
        self.leaves = {}
        self.order = {}

    def top(self, a, b, depth=0, level=0, split=(0, 0)):
        """Compare whole values: where several positions differ, look for one
        difference that explains all of them."""
        r = self.single(a, b, depth, split)
        if r.s != UND or depth or level > 7:
            return r
        if level == 0:
            a = self.align(a)
            m = absent(a)
            if m is not None and absent(b) is None:
                return diff('something that is not there is used', m, b)
        q = self.local(a, b)
        if q is not None:
            return q
        q = judge.judge(a, b, trust, restr, lambda x, y: Cmp().cmp(x, y))
        if q is True:
            return _EQ
        if q is not None:
            return diff(q[0], q[1], q[2])
        q = screen(a, b)
        if q is not None:
            return q
        q = leftover(a, b)
        if q is not None:
            return q
        q = witness.dependency(a, b)
        if q is not None:
            return diff('what it depends on', a if q[0] else q[1],
                        q[1] if q[0] else b)
        # the parts on their own
        a, b = plain(a), plain(b)
        ps = self.parts(a, b)
        if ps:
            for x, y in ps:
                q = self.top(x, y, depth, level + 1, split)
                if q.s == DIFF:
                    return q
            return r
        c = None
        if a.op == 'ite' or b.op == 'ite':
            c = (a if a.op == 'ite' else b).a[0]
        elif level < 6:
            c = inner(a, b)
        if c is not None:
            ina, inb = contains(a, c), contains(b, c)
            if not free(c):
                split = (split[0] or ina and not inb, split[1] or
                         inb and not ina)
            if split[0] and split[1]:
                return r
            for v in (True, False):
                if not trust(c, v):
                    continue
                q = self.top(restr(a, c, v), restr(b, c, v), depth,
                             level + 1, split)
                if q.s == DIFF:
                    return R(DIFF, 'alternative: ' + q.why, q.a, q.b)
        return r

    def align(self, a):
        """Carried variables of loops in the order of the other side."""
        for f, p in self.order.items():
            if p == tuple(range(len(p))):
                continue
            h = f.a[0]
            t1 = dict((mk('acc', h, p[j]), mk('acc', h + 500, j))
                      for j in range(len(p)))
            t2 = dict((mk('acc', h + 500, j), mk('acc', h, j))
                      for j in range(len(p)))
            g = mk('fold', h, f.a[1],
                   mk('tuple', *[f.a[2].a[p[j]] for j in range(len(p))]),
                   mk('tuple', *[subst(subst(f.a[3].a[p[j]], t1), t2)
                                 for j in range(len(p))]))
            m = {f: g}
            for j in range(len(p)):
                m[mk('sub', f, const(p[j]))] = mk('sub', g, const(j))
            a = subst(a, m)
        return a

    def local(self, a, b):
        """One term of a in the place of another one of b is all that is not
        the same."""
        A, B = subterms(a), subterms(b)
        xa = [x for x in A if x not in B]
        xb = [x for x in B if x not in A]
        if not xa or not xb or len(xa) > 400 or len(xb) > 400:
            return None
        tries = 0
        xa.sort(key=lambda x: x.sz)
        xb.sort(key=lambda x: x.sz)
        par = {}
        for x in xa:
            for y in x.a:
                if isinstance(y, T):
                    par.setdefault(y, []).append(x)
        for x in xa[:24]:
            if x.op in ('slice', 'tuple', 'pair', 'map', 'fold', 'lupd'):
                continue
            for y in xb[:24]:
                if y.op in ('slice', 'tuple', 'pair') or \
                        (x.op == 'ite') != (y.op == 'ite'):
                    continue
                r = Cmp().cmp(x, y)
                if r.s != DIFF:
                    ps = [q for z in par.get(x, []) for q in (
                        par.get(z, []) if z.op in ('tuple', 'arr') else [z])]
                    r = alike(x, y, ps)
                    if r is None:
                        continue
                tries += 1
                if tries > 60:
                    return None
                if subst(a, {x: y}) is b:
                    return r
        return None

    def parts(self, a, b):
        """Positions of a value that are there independently of each other,
        where they are not the same."""
        if a.op != b.op or len(a.a) != len(b.a):
            return None
        if a.op in ('list', 'tuple'):
            ps = list(zip(a.a, b.a))
        elif a.op == 'new' and a.a[0] == b.a[0]:
            ps = list(zip(a.a[1:], b.a[1:]))
        elif a.op == 'struct':
            ps = list(zip(a.a, b.a))
        elif a.op == 'dict':
            da = dict((p.a[0], p.a[1]) for p in a.a)
            db = dict((p.a[0], p.a[1]) for p in b.a)
            if set(da) != set(db):
                return None
            ps = [(da[k], db[k]) for k in da]
        elif a.op == 'dupd':
            ua, ba = dupds(a)
            ub, bb = dupds(b)
            if set(ua) != set(ub):
                return None
            ps = [(ba, bb)] + [(ua[k], ub[k]) for k in ua]
        elif a.op in ('map', 'smap', 'dmap'):
            xs, ys = list(a.a[1:]), list(b.a[1:])
            if a.a[0] != b.a[0]:
                h = max(a.a[0], b.a[0]) + 1000
                xs, ys = rename(xs, a.a[0], h), rename(ys, b.a[0], h)
            j = 2 if a.op == 'dmap' else 1
            if any(x is not y for i, (x, y) in enumerate(zip(xs, ys))
                   if i != j):
                return None
            ps = [(xs[j], ys[j])]
        else:
            return None
        return [(x, y) for x, y in ps
                if isinstance(x, T) and isinstance(y, T) and x is not y]

    def single(self, a, b, depth=0, split=(0, 0)):
        self.leaves, self.memo, self.n = {}, {}, 0
        self.split = [int(bool(x)) for x in split]
        r = self.cmp(a, b)
        if r.s != UND:
            return r
        def explains(m, why=None):
            for x, y in list(m.items()):
                if kind(x) == 'bool' or x.op in CMPS or y.op in CMPS:
                    m[not_(x)] = not_(y)
            c = subst(a, m)
            if c is b:
                return True
            if c is a:
                return False
            r = Cmp().single(c, b, depth + 1) if depth < 1 and why else \
                Cmp().cmp(c, b)
            return r.s == EQ or r.s == DIFF and r.why == why and \
                num(r.a) is None
        # smallest first; a bare constant is in too many places
        cand = sorted(((x, y, l) for (x, y), l in self.leaves.items()
                       if x.op not in ('const', 'rat')),
                      key=lambda c: c[0].sz + c[1].sz)
        for x, y, l in cand[:40]:
            if explains({x: y}):
                return l
        groups = {}
        for x, y, l in cand:
            k = (l.why, l.a, l.b) if num(l.a) is not None else l.why
            m = groups.setdefault(k, ({}, l))[0]
            if x is l.a or num(l.a) is not None and not within(x, m):
                m.setdefault(x, y)
        for m, l in groups.values():
            if len(m) < 12 and explains(m, l.why):
                return l
        # several queries together
        m, l0 = {}, None
        for x, y, l in cand:
            if x.op == y.op == 'call' and x.a[0] is y.a[0] and \
                    x.a[0].op == 'meth' and x.a[0].a[0] == 'read_where' \
                    and x not in m:
                m[x] = y
                l0 = l0 or l
        if 1 < len(m) < 6 and explains(m):
            return l0
        return r

    def cmp(self, a, b):
        if a is b:
            return _EQ
        k = (a, b, self.split[0] > 0, self.split[1] > 0)
        r = self.memo.get(k)
        if r is None:
            self.n += 1
            if self.n > self.BUDGET or Cmp.until and \
                    time.time() > Cmp.until:
                return und('comparison budget', a, b)
            self.memo[k] = und('cycle', a, b)
            r = self._cmp(a, b)
            if r.s == UND:
                w = witness.find(a, b)
                if w is not None:
                    r = diff(w, a, b)
            self.memo[k] = r
            if r.s == DIFF and r.a is not None and r.b is not None:
                self.leaves.setdefault((r.a, r.b), r)
                self.leaves.setdefault((a, b), r)
        return r

    # --------------------------------------------------------------

    def _cmp(self, a, b):
        # wrappers that do not change the value
        a2, b2 = plain(a), plain(b)
        if a2 is b2:
            return _EQ
        if a2 is not a or b2 is not b:
            return self.cmp(a2, b2)
        if a.op == 'undef' or b.op == 'undef':
            return und('undefined', a, b)
        if a.op == 'ite' or b.op == 'ite':
            return self.ite(a, b)
        if a.op == 'const' and b.op == 'const':
            return self.const(a, b)
        if a.op == 'missing' and b.op != 'missing':
            return diff('a name that is not there', a, b)
        if a.op == 'const' and a.a[0] == 'bool' and b.op in (
                'in', 'lt', 'le', 'eq', 'ne', 'not') and not soft(b):
            return diff('always %s' % a.a[1], a, b)
        ka, kb = kind(a), kind(b)
        for x, y, p, q in ((a, b, ka, kb), (b, a, kb, ka)):
            if (p in SCALAR or x.op == 'cfgconv') and (
                    q in CONTAINER or str(q)[:1] == '[') and not (
                    y.op in ('tuple', 'list', 'rep') and len(y.a) < 2) and \
                    y.op not in ('arr', 'rep', 'lcat'):
                return diff('another kind of value', a, b)
            if x.op == 'param' and p != 'obj' and not soft_input(x) and \
                    y.op in ('cfgconv', 'cfgget') and not contains(y, x):
                return diff('an input against something else', a, b)
        if ka == 'bool' and not_(a) is b:
            return diff('negated', a, b)
        x = b
        while x.op in ('upd', 'lupd', 'fold', 'dupd', 'dupdate') or x.op == 'sub' and \
                x.a[0].op == 'fold' and num(x.a[1]) is not None:
            if x.op == 'sub':
                j = int(num(x.a[1]))
                x = x.a[0].a[2]
                x = x.a[j] if j < len(x.a) else ZERO
            else:
                x = x.a[0] if x.op in ('upd', 'dupd', 'dupdate') else \
                    x.a[1] if x.op == 'lupd' else x.a[2]
                if x.op == 'tuple' and len(x.a) == 1:
                    x = x.a[0]
            if x is a or x.op == 'dict' and a.op == 'dict' and not a.a:
                return diff('an assignment is not made', a, b)
        if b.op == 'lcat' and within_parts(a, b):
            return diff('items are missing', a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == 'sub' and ismask(x.a[1]) and x.a[0] is y:
                return diff('a selection is %s' % (
                    'not made' if y is a else 'made'), a, b)
            if x.op == 'call' and x.a[0].op == 'meth' and \
                    x.a[0].a[0] == 'read_where' and x.a[1].a[0] is y and \
                    len(x.a[1].a) > 1 and not soft(x.a[1].a[1]):
                return diff('a selection is %s' % (
                    'not made' if y is a else 'made'), a, b)
        r = self.linear(a, b)
        if r is not None:
            return r
        if a.op in ('and', 'or') or b.op in ('and', 'or'):
            return self.bool(a, b)
        if a.op in CMPS and b.op in CMPS or a.op == 'not' or b.op == 'not':
            r = self.comparison(a, b)
            if r is not None:
                return r
        if a.op != b.op:
            return self.other(a, b)
        f = getattr(self, 'c_' + a.op, None)
        if f is not None:
            return f(a, b)
        if a.op in BINDERS:
            return self.binder(a, b)
        return self.generic(a, b)

    def const(self, a, b):
        ka, kb = a.a[0], b.a[0]
        na, nb = num(a), num(b)
        if na is not None and nb is not None:
            return _EQ if na == nb else diff('constant', a, b)
        if 'bool' in (ka, kb) and ka != kb and 'none' not in (ka, kb):
            return und('bool constant', a, b)
        return diff('constant', a, b)

    # --- arithmetic

    def linear(self, a, b):
        if not (a.op in ('add', 'mul') or b.op in ('add', 'mul') or
                num(a) is not None or num(b) is not None):
            return None
        if kind(a) in ('str', 'list', 'tuple', 'dict') or \
                kind(b) in ('str', 'list', 'tuple', 'dict'):
            return None
        na, nb = num(a), num(b)
        if na is not None and nb is not None:
            return _EQ if na == nb else diff('constant', a, b)
        if na is not None or nb is not None:
            x = b if na is not None else a
            if x.op == 'param':
                return diff('a constant against an input', a, b)
            if x.op in ('ix', 'bv'):
                return diff('a constant against a running index', a, b)
            if x.op == 'const' and x.a[0] in ('none', 'str'):
                return diff('constant', a, b)
            if x.op == 'add':
                da, ca = _t._linear(x)
                if all(y.op in ('param', 'ix', 'bv') for y in da):
                    return diff('a constant against an input', a, b)
            return und('constant against an expression', a, b)
        da, ca = _t._linear(a)
        db, cb = _t._linear(b)
        onlya = [x for x in da if x not in db]
        onlyb = [x for x in db if x not in da]
        if all(x.op in ('param', 'bv', 'ix', 'acc')
               for x in list(da) + list(db)) and (da != db or ca != cb):
            # of independent variables
            return diff('coefficient' if da != db else 'constant term', a, b)
        if not onlya and not onlyb:
            co = [x for x in da if da[x] != db[x]]
            if not co:
                return _EQ if ca == cb else diff('constant term', a, b)
            if ca != cb and len(co) > 1:
                return und('several terms', a, b)
            return diff('coefficient', a, b)
        if len(onlya) == 1 and len(onlyb) == 1:
            x, y = onlya[0], onlyb[0]
            same = all(da[z] == db[z] for z in da if z is not x) and ca == cb
            if not same:
                return und('several terms', a, b)
            if da[x] != db[y]:
                r = self.product(mul(numc(da[x]), x), mul(numc(db[y]), y))
                return r
            if x.op in ('add', 'mul', 'pow') or y.op in ('add', 'mul', 'pow'):
                return self.product(x, y)
            return self.cmp(x, y) if (x is not a or y is not b) else None
        if len(onlya) + len(onlyb) == 1:
            x = (onlya + onlyb)[0]
            if all(da[z] == db[z] for z in da if z in db) and ca == cb and \
                    (len(da) or ca) and (len(db) or cb):
                if x.op == 'ite' or x.op == 'lsum':
                    return und('extra term', a, b)
                return diff('extra term', a, b)
        return und('sums', a, b)

    def product(self, a, b):
        fa, fb = factors(a), factors(b)
        c1 = fa.pop(None, 1)
        c2 = fb.pop(None, 1)
        oa = [x for x in fa if x not in fb]
        ob = [x for x in fb if x not in fa]
        dif = [x for x in fa if x in fb and fa[x] is not fb[x]]
        if not oa and not ob:
            if not dif:
                return _EQ if c1 == c2 else diff('factor', a, b)
            if len(dif) == 1 and c1 == c2:
                return diff('exponent', a, b) \
                    if num(fa[dif[0]]) is not None and \
                    num(fb[dif[0]]) is not None \
                    else self.cmp(fa[dif[0]], fb[dif[0]])
            return und('product', a, b)
        if dif:
            return und('product', a, b)
        if len(oa) == 1 and len(ob) == 1:
            x, y = oa[0], ob[0]
            if fa[x] is not fb[y]:
                return und('product', a, b)
            if c1 != c2:
                return und('product', a, b)
            if len(fa) == 1 and len(fb) == 1 and fa[x] is ONE and c1 == 1:
                return self._cmp(x, y) if x is not a or y is not b \
                    else self.other(x, y) if x.op != y.op else \
                    self.generic(x, y)
            return self.cmp(x, y)
        if len(oa) + len(ob) == 1 and c1 == c2:
            return diff('extra factor', a, b) \
                if simple((oa + ob)[0]) else und('extra factor', a, b)
        return und('product', a, b)

    def c_pow(self, a, b):
        return self.product(a, b)

    def c_mul(self, a, b):
        return self.product(a, b)

    # --- conditions

    def comparison(self, a, b):
        if a.op == 'not' or b.op == 'not':
            if not_(a) is b:
                return diff('negated', a, b)
            if a.op == b.op:
                return self.cmp(a.a[0], b.a[0])
            return None
        sa, sb = set(a.a), set(b.a)
        if sa == sb:
            if a.op == b.op and a.op in ('eq', 'ne'):
                return _EQ
            return diff('comparison', a, b)
        # lt(a,b) against lt(b', a): as if negated
        if a.op in ('lt', 'le') and b.op in ('lt', 'le') and a.op != b.op:
            if (a.a[0] is b.a[1] or a.a[1] is b.a[0]):
                return und('comparison', a, b)
            r = self.pair(a.a, b.a, a, b, 'comparison')
            return und('comparison', a, b)
        if a.op != b.op:
            return und('comparison', a, b)
        if a.op in ('eq', 'ne'):
            for i in (0, 1):
                for j in (0, 1):
                    if a.a[i] is b.a[j]:
                        return self.cmp(a.a[1 - i], b.a[1 - j])
            return self.equation(a, b)
        r = self.pair(a.a, b.a, a, b, 'comparison')
        return r if r.s != UND else self.equation(a, b)

    def equation(self, a, b):
        """Both as a comparison of a sum with zero."""
        u = und('comparison', a, b)
        if any(kind(x) in ('str', 'list', 'tuple', 'dict', 'none', 'opt')
               or x.op == 'const' and num(x) is None for x in a.a + b.a):
            return u
        if not any(x.op in ('add', 'mul') for x in a.a + b.a):
            return u
        d1, d2 = add(a.a[0], neg(a.a[1])), add(b.a[0], neg(b.a[1]))
        for e in ([d2] if a.op in ('lt', 'le') else [d2, neg(d2)]):
            if e is d1:
                return _EQ
            da, ca = _t._linear(d1)
            db, cb = _t._linear(e)
            if da == db and ca != cb:
                return diff('constant term', a, b)
            if set(da) == set(db) and ca == cb and \
                    sum(da[x] != db[x] for x in da) == 1:
                return diff('coefficient', a, b)
        return u

    def pair(self, xs, ys, a, b, why):
        """Several positions together: one that is different decides, more
        than one may make up for each other."""
        rs = [self.cmp(x, y) for x, y in zip(xs, ys)
              if isinstance(x, T) and isinstance(y, T)]
        bad = [r for r in rs if r.s != EQ]
        if not bad:
            return _EQ
        if len(bad) == 1:
            return bad[0]
        return und(why, a, b)

    def bool(self, a, b):
        oa = 'and' if 'and' in (a.op, b.op) else 'or'
        if a.op in ('and', 'or') and b.op in ('and', 'or') and a.op != b.op:
            if set(a.a) == set(b.a):
                return diff('and / or', a, b)
            return und('conditions', a, b)
        xa = list(a.a) if a.op == oa else [a]
        xb = list(b.a) if b.op == oa else [b]
        la = [x for x in xa if x not in xb]
        lb = [x for x in xb if x not in xa]
        if not la and not lb:
            return _EQ
        if len(la) == 1 and len(lb) == 1:
            return self.cmp(la[0], lb[0]) if (la[0] is not a or
                                              lb[0] is not b) \
                else und('conditions', a, b)
        if not la or not lb:
            ex = la or lb
            if len(ex) == len(xa if la else xb):
                return und('conditions', a, b)
            if all(not soft(x) for x in ex):
                return diff('a condition too %s' %
                            ('many' if la else 'few'), a, b)
            return und('extra condition', a, b)
        if len(la) == len(lb):
            # each with its nearest
            used, rs = set(), []
            for x in la:
                best = None
                for y in lb:
                    if y in used:
                        continue
                    r = self.cmp(x, y)
                    if r.s == EQ:
                        best = (y, r)
                        break
                    if r.s == DIFF and best is None:
                        best = (y, r)
                if best is None:
                    return und('conditions', a, b)
                used.add(best[0])
                rs.append(best[1])
            bad = [r for r in rs if r.s != EQ]
            if not bad:
                return _EQ
            if len(bad) == 1:
                return bad[0]
        return und('conditions', a, b)

    # --- decision diagrams

    def ite(self, a, b):
        ca, cb = conds(a), conds(b)
        oa = [c for c in ca if c not in cb]
        ob = [c for c in cb if c not in ca]
        common = [c for c in ca if c in cb]
        if a.op == b.op == 'ite' and a.a[0] is b.a[0] and \
                a.a[1] is b.a[2] and a.a[2] is b.a[1]:
            return diff('alternatives exchanged', a, b)
        if common:
            c = common[0]
            r1 = self.cmp(restr(a, c, True), restr(b, c, True))
            if r1.s == DIFF and trust(c, True):
                return r1
            r2 = self.cmp(restr(a, c, False), restr(b, c, False))
            return worst(r1, r2)
        if a.op == 'ite' and b.op == 'ite':
            # another condition, the same alternatives
            if len(oa) == 1 and len(ob) == 1:
                x, y = oa[0], ob[0]
                if a.a[1] is b.a[1] and a.a[2] is b.a[2]:
                    return self.cmp(x, y)
                if a.a[1] is b.a[2] and a.a[2] is b.a[1]:
                    return self.cmp(not_(x), y)
                r = self.cmp(x, y)
                if r.s == EQ:
                    return worst(self.cmp(a.a[1], b.a[1]),
                                 self.cmp(a.a[2], b.a[2]))
            # pair conditions that are known to be the same or different
            for x in oa:
                for y in ob:
                    r = self.cmp(x, y)
                    if r.s == DIFF and not soft(x) and not soft(y):
                        if reorder(a, x, y) is b:
                            return r
            return und('conditions of alternatives', a, b)
        # one side has an alternative the other one does not have
        x, y = (a, b) if a.op == 'ite' else (b, a)
        flip = x is b
        rs = []
        for c, v, sft in alternatives(x):
            w = y
            if any(implied(f, g) is False for i, g in enumerate(c)
                   if g.op in ORDERS for f in c[:i] if f.op in ORDERS):
                continue            # never at once
            for g in c:
                v, w = restr(v, g, True), restr(w, g, True)
            k = not all(free(g) for g in c)
            self.split[flip] += k
            try:
                r = self.cmp(v, w) if not flip else self.cmp(w, v)
            finally:
                self.split[flip] -= k
            rs.append((r, sft))
        if all(r.s == EQ for r, s in rs):
            return _EQ
        if all(r.s == DIFF for r, s in rs):
            return rs[0][0]
        for r, s in rs:
            if r.s == DIFF and not s and not self.split[not flip]:
                return R(DIFF, 'alternative: ' + r.why, r.a, r.b)
        return und('alternative', a, b)

    # --- structure

    def generic(self, a, b):
        if len(a.a) != len(b.a):
            return und('arity', a, b)
        for x, y in zip(a.a, b.a):
            if not isinstance(x, T) or not isinstance(y, T):
                if x is not y and x != y:
                    return self.leafdiff(a, b)
        return self.pair(a.a, b.a, a, b, a.op)

    def leafdiff(self, a, b):
        if a.op in ('param', 'prop', 'attr', 'glob', 'hasprop', 'col',
                    'accessor', 'propk'):
            if a.op == 'glob':
                return self.globs(a, b)
            if a.op == 'prop' and a.a[0] is not b.a[0] and \
                    self.cmp(a.a[0], b.a[0]).s != EQ:
                return und('property', a, b)
            return diff(a.op, a, b)
        return und(a.op, a, b)

    def globs(self, a, b):
        x, y = a.a[0], b.a[0]
        if _FAM.get(x, set()) & _FAM.get(y, set()):
            return diff('function', a, b)
        if y in ('numpy.empty', 'numpy.empty_like') and x in (
                'numpy.zeros', 'numpy.ones', 'numpy.zeros_like',
                'numpy.ones_like') and x[-5:] == y[-5:] or (
                y == 'numpy.empty' and x in ('numpy.zeros', 'numpy.ones')):
            return _EQ              # of no matter what is in it
        return und('function', a, b)

    def c_glob(self, a, b):
        return self.globs(a, b)

    def c_tuple(self, a, b):
        if len(a.a) != len(b.a):
            return und('number of items', a, b) \
                if any(x.op == 'starred' for x in a.a + b.a) else \
                diff('number of items', a, b)
        return self.every(zip(a.a, b.a))

    def c_list(self, a, b):
        if len(a.a) != len(b.a):
            return diff('number of items', a, b)
        return self.every(zip(a.a, b.a))

    def every(self, pairs):
        """Independent positions."""
        w = _EQ
        for x, y in pairs:
            w = worst(w, self.cmp(x, y))
            if w.s == DIFF:
                return w
        return w

    def c_dict(self, a, b):
        da = dict((p.a[0], p.a[1]) for p in a.a)
        db = dict((p.a[0], p.a[1]) for p in b.a)
        if set(da) != set(db):
            x = [k for k in da if k not in db]
            y = [k for k in db if k not in da]
            if all(k.op == 'const' for k in x + y):
                return diff('keys', a, b)
            if len(x) == 1 and len(y) == 1:
                r = self.cmp(x[0], y[0])
                if r.s == DIFF:
                    return r
            return und('keys', a, b)
        return self.every([(da[k], db[k]) for k in da])

    def c_new(self, a, b):
        if a.a[0] != b.a[0]:
            return diff('class', a, b)
        return self.cmp(a.a[1], b.a[1])

    def c_struct(self, a, b):
        return self.generic(a, b) if len(a.a) != 1 else \
            self.cmp(a.a[0], b.a[0])

    def c_dupd(self, a, b):
        # writes of independent keys
        ua, ba = dupds(a)
        ub, bb = dupds(b)
        if set(ua) == set(ub):
            return self.every([(ba, bb)] + [(ua[k], ub[k]) for k in ua])
        x = [k for k in ua if k not in ub]
        y = [k for k in ub if k not in ua]
        if len(x) == 1 and len(y) == 1 and self.cmp(ba, bb).s == EQ:
            return self.pair([x[0], ua[x[0]]], [y[0], ub[y[0]]], a, b, 'item')
        if all(k.op == 'const' for k in x + y) and \
                self.cmp(ba, bb).s == EQ and (not x or not y):
            return diff('keys', a, b)
        return und('dictionary', a, b)

    def c_upd(self, a, b):
        r = self.pair(a.a, b.a, a, b, 'array')
        return r

    def c_sub(self, a, b):
        rb = self.cmp(a.a[0], b.a[0])
        ri = self.index(a.a[1], b.a[1])
        if rb.s == EQ:
            if ri.s == UND and varlen(b.a[0]):
                i, j = first(a.a[1]), first(b.a[1])
                if i is not None and j is not None and i[1] == j[1]:
                    x = [(p, q) for p, q in zip(i[0], j[0]) if p is not q]
                    if len(x) == 1 and all(num(p) is not None or p is NONE
                                           for p in x[0]):
                        return diff('position', a, b)
            return ri
        if ri.s == EQ:
            return rb
        return und('index', a, b)

    def index(self, i, j):
        if i is j:
            return _EQ
        if i.op == 'tuple' and j.op == 'tuple' and len(i.a) == len(j.a):
            rs = [self.index(x, y) for x, y in zip(i.a, j.a)]
            bad = [r for r in rs if r.s != EQ]
            return _EQ if not bad else bad[0] if len(bad) == 1 else \
                und('index', i, j)
        if i.op == 'slice' and j.op == 'slice':
            rs = [self.bound(x, y) for x, y in zip(i.a, j.a)]
            bad = [r for r in rs if r.s != EQ]
            return _EQ if not bad else bad[0] if len(bad) == 1 else \
                und('slice', i, j)
        if i.op == 'slice' or j.op == 'slice' or i.op == 'tuple' or \
                j.op == 'tuple':
            return und('index', i, j)
        return self.bound(i, j)

    def bound(self, i, j):
        """Integer positions: -1 may be the same as the length less one."""
        if i is j:
            return _EQ
        if relative(i) != relative(j):
            return und('position', i, j)
        if (i is NONE or j is NONE) and any(
                mentions_len(x) for x in (i, j)):
            return und('position', i, j)
        return self.cmp(i, j)

    def c_call(self, a, b):
        f, g = a.a[0], b.a[0]
        A, B = a.a[1], b.a[1]
        if f is not g:
            r = self.cmp(f, g)
            if r.s == DIFF and A is B:
                return diff('function', a, b)
            if f.op == 'meth' and g.op == 'meth' and f.a[0] != g.a[0]:
                if f.a[0] in METHODS and g.a[0] in METHODS and \
                        A is B:
                    return diff('method', a, b)
                return und('method', a, b)
            if r.s != EQ:
                return und('function', a, b)
        if len(A.a) != len(B.a):
            if f.op == 'param' and not any(
                    x.op == 'starred' for x in A.a + B.a):
                return diff('number of arguments', a, b)
            return und('arguments', a, b)
        xs, ys = list(A.a), list(B.a)
        if f.op == 'glob' and f.a[0] in COMMUTE:
            for x in list(xs):
                for y in ys:
                    if self.cmp(x, y).s == EQ:
                        xs.remove(x)
                        ys.remove(y)
                        break
        ka = dict((p.a[0], p.a[1]) for p in a.a[2].a)
        kb = dict((p.a[0], p.a[1]) for p in b.a[2].a)
        own = f.op == 'glob' and f.a[0] in OPAQUE_KIND or \
            f.op == 'glob' and f.a[0].startswith('flowtracks')
        bad = []
        for x, y in zip(xs, ys):
            r = self.cmp(x, y)
            if r.s != EQ:
                bad.append(r)
        for k in sorted(set(ka) | set(kb)):
            x, y = ka.get(k), kb.get(k)
            if k == 'ndmin' and x is not y:
                bad.append(und('keyword ndmin', a, b))
                continue
            if k in SOFT_KW and not own:
                continue
            if x is None or y is None:
                v = x if x is not None else y
                bad.append(und('keyword ' + k, a, b)
                           if v is NONE or own else
                           diff('keyword ' + k, a, b))
                continue
            r = self.bound(x, y) if k in REL else self.cmp(x, y)
            if r.s != EQ:
                bad.append(r)
        if not bad:
            return _EQ
        if own or f.op == 'meth' or f.op == 'param':
            for r in bad:
                if r.s == DIFF:
                    return r
        if len(bad) == 1:
            return bad[0]
        return und('arguments', a, b)

    def c_meth(self, a, b):
        return _EQ if a.a == b.a else und('method', a, b)

    def c_slice(self, a, b):
        return self.index(a, b)

    def c_str(self, a, b):
        va = [x for x in a.a if x.op != 'const']
        vb = [x for x in b.a if x.op != 'const']
        if len(va) == len(vb) and all(x is y for x, y in zip(va, vb)):
            return diff('text', a, b)
        if len(a.a) == len(b.a) and all(
                (x.op == 'const') == (y.op == 'const')
                for x, y in zip(a.a, b.a)):
            return self.pair(a.a, b.a, a, b, 'text')
        return und('text', a, b)

    def c_fmtv(self, a, b):
        if a.a[0] != b.a[0]:
            if a.a[1] is b.a[1]:
                if set((a.a[0], b.a[0])) <= set(('s', '', 'd', 'r', 'i')):
                    return und('format', a, b)
                return diff('format', a, b)
            return und('format', a, b)
        return self.cmp(a.a[1], b.a[1])

    def c_lcat(self, a, b):
        xa, xb = list(a.a), list(b.a)
        while xa and xb and self.cmp(xa[0], xb[0]).s == EQ:
            xa.pop(0)
            xb.pop(0)
        while xa and xb and self.cmp(xa[-1], xb[-1]).s == EQ:
            xa.pop()
            xb.pop()
        if not xa and not xb:
            return _EQ
        if len(xa) == 1 and len(xb) == 1:
            return self.cmp(xa[0], xb[0])
        if len(xa) == len(xb):
            return self.pair(xa, xb, a, b, 'items')
        if not xa or not xb:
            r = (xa or xb)
            if all(x.op in ('list', 'tuple') for x in r):
                return diff('items', a, b)
        return und('items', a, b)

    def binder(self, a, b):
        ha, hb = a.a[0], b.a[0]
        xs, ys = list(a.a[1:]), list(b.a[1:])
        if len(xs) != len(ys):
            return und(a.op, a, b)
        if ha != hb:
            h = max(ha, hb) + 1000
            xs, ys = rename(xs, ha, h), rename(ys, hb, h)
        else:
            h = ha
        if a.op == 'fold':
            return self.fold(xs, ys, a, b, h)
        rs = []
        for x, y in zip(xs, ys):
            if isinstance(x, T) and isinstance(y, T):
                r = self.cmp(x, y)
                if r.s != EQ:
                    rs.append(r)
            elif x != y:
                return und(a.op, a, b)
        if not rs:
            return _EQ
        if len(rs) == 1:
            return rs[0]
        return und(a.op, a, b)

    def fold(self, xs, ys, a, b, h):
        """Loop with carried variables: the variables are matched in the way
        that leaves the least to explain."""
        m = len(xs[1].a)
        if m != len(ys[1].a):
            return und('loop', a, b)
        r0 = self.cmp(xs[0], ys[0])
        best = None
        for p in self.matchings(xs[1].a, ys[1].a, m):
            # variable j of b is variable p[j] of a
            tmp = dict((mk('acc', h, j), mk('acc', h + 500, p[j]))
                       for j in range(m))
            tmp2 = dict((mk('acc', h + 500, j), mk('acc', h, j))
                        for j in range(m))
            bad = [] if r0.s == EQ else [r0]
            for j in range(m):
                r = self.cmp(xs[1].a[p[j]], ys[1].a[j])
                if r.s != EQ:
                    bad.append(r)
            if best is not None and len(bad) >= len(best):
                continue
            for j in range(m):
                y = subst(subst(ys[2].a[j], tmp), tmp2) \
                    if p != tuple(range(m)) else ys[2].a[j]
                r = self.cmp(xs[2].a[p[j]], y)
                if r.s != EQ:
                    bad.append(r)
                    if best is not None and len(bad) >= len(best):
                        break
            if best is None or len(bad) < len(best):
                best = bad
                self.order[a] = p
            if not best:
                return _EQ
        if len(best) == 1:
            return best[0]
        return und('loop', a, b)

    def matchings(self, ia, ib, m):
        """Ways to match carried variables: those that start equal first."""
        groups = []
        resta, restb = list(range(1, m)), list(range(1, m))
        for j in range(1, m):
            if j not in restb:
                continue
            ga = [i for i in resta if ia[i] is ib[j]]
            gb = [i for i in restb if ib[i] is ib[j]]
            if ga and len(ga) == len(gb):
                groups.append((ga, gb))
                resta = [i for i in resta if i not in ga]
                restb = [i for i in restb if i not in gb]
        if restb:
            groups.append((resta, restb))
        n = 0
        for ps in itertools.product(*[itertools.permutations(ga)
                                      for ga, gb in groups]):
            p = [0] * m
            for (ga, gb), q in zip(groups, ps):
                for i, j in zip(q, gb):
                    p[j] = i
            yield tuple(p)
            n += 1
            if n > 130:
                return

    def other(self, a, b):
        """Terms of different kinds."""
        if a.op == 'missing' and b.op != 'missing':
            return diff('nothing of that name', a, b)
        if b.op == 'glob' and b.a[0] == 'numpy.inf' and a.op == 'const':
            return diff('constant', a, b)
        if a.op == 'glob' and a.a[0] == 'numpy.inf' and b.op == 'const':
            return diff('constant', a, b)
        # a value against one of its parts or something computed from it
        for x, y in ((a, b), (b, a)):
            if y.op == 'param' or y.op == 'prop' or y.op == 'sub':
                if x.op in ('not',) and x.a[0] is y:
                    return diff('negated', a, b)
                if x.op == 'sub' and plain(x.a[0]) is y and x.a[1].op in (
                        'const', 'slice') and x.a[1] is not FULL and \
                        x.a[1] is not NONE:
                    if x.a[1].op == 'slice' and x.a[1].a[1] is not NONE and \
                            relative(x.a[1].a[1]) is False and \
                            x.a[1].a[0] is NONE:
                        return und('part', a, b)
                    return diff('part', a, b)
                if x.op == 'call' and x.a[0].op == 'meth' and \
                        x.a[0].a[0] == 'smoothed' and x.a[1].a[0] is y:
                    return diff('function of', a, b)
                if x.op == 'call' and x.a[0].op == 'glob' and \
                        x.a[0].a[0] in WRAPS and len(x.a[1].a) >= 1 and \
                        x.a[1].a[0] is y:
                    return diff('function of', a, b)
            if x.op == 'const' and x.a[0] == 'none' and (
                    kind(y) not in (None, 'opt', 'none') and
                    y.op != 'param' or y.op in ('new', 'list', 'tuple',
                                                'dict', 'map')):
                return diff('None', a, b)
            if x.op == 'param' and y.op in ('ix', 'bv'):
                return diff('input against index', a, b)
            if x.op == 'const' and y.op == 'param':
                return diff('a constant against an input', a, b)
        if a.op in ('isnone', 'truth') and b.op in ('isnone', 'truth', 'not'):
            return und('presence', a, b)
        if a.op == 'call' and b.op == 'call':
            return self.c_call(a, b)
        return und('construct', a, b)


METHODS = frozenset([
    'pos', 'velocity', 'time', 'trajid', 'accel', 'min', 'max', 'sum', 'mean',
    'any', 'all', 'argmin', 'argmax', 'getfloat', 'getint', 'diameter',
    'density', 'as_dict', 'keys', 'values', 'items', 'std', 'cumsum',
    'prod', 'get_particle', 'frame_range', 'frame_rate'])
CMPS = frozenset(['lt', 'le', 'eq', 'ne'])
WRAPS = frozenset(['numpy.abs', 'numpy.sqrt', 'sorted', 'numpy.sort',
                   'numpy.unique', 'reversed', 'numpy.flipud',
                   'numpy.cumsum', 'numpy.log', 'numpy.exp', 'numpy.sum',
                   'numpy.mean', 'numpy.round', 'numpy.floor', 'numpy.ceil'])


def within(t, keys):
    """Is one of the keys inside the term?"""
    if not keys:
        return False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in keys:
            return True
        if id(x) in seen:
            continue
        seen.add(id(x))
        todo.extend(y for y in x.a if isinstance(y, T))
    return False


def rename(xs, h, k):
    """The bound variables of a binder at height h are now those of k."""
    m = {mk('bv', h): mk('bv', k)}
    for j in range(12):
        m[mk('acc', h, j)] = mk('acc', k, j)
    return [subst(x, m) if isinstance(x, T) else x for x in xs]


def simple(x):
    return x.op in ('param', 'prop', 'const', 'attr', 'sub', 'rat', 'bv',
                    'ix', 'glob')


def plain(x):
    while x.op == 'arr' or x.op == 'call' and x.a[0].op == 'glob' and \
            x.a[0].a[0] in ('list', 'tuple', 'numpy.array', 'iter',
                            'numpy.asarray', 'numpy.float64', 'numpy.int64',
                            'numpy.copy') \
            and len(x.a[1].a) == 1 and not x.a[2].a:
        x = x.a[0] if x.op == 'arr' else x.a[1].a[0]
    return x


def relative(i):
    """Counts from the end."""
    n = num(i)
    if n is not None:
        return n < 0
    if i.op == 'add' and num(i.a[0]) is not None and num(i.a[0]) < 0:
        return None
    d, k = _t._linear(i)
    if d and all(c < 0 for c in d.values()):
        return True
    return mentions_len(i) and None


def mentions_len(t, depth=6):
    if t.op in ('len', 'count', 'shape'):
        return True
    if depth == 0:
        return True
    return any(mentions_len(x, depth - 1) for x in t.a if isinstance(x, T))


def factors(t):
    out = {}
    for b, e in _t._factors(t):
        n = num(b)
        if n is not None and e is ONE:
            out[None] = out.get(None, 1) * n
        else:
            out[b] = e
    return out


def conds(t):
    """Atomic conditions of the decision diagram, in order."""
    out = {}

    def go(x):
        if x.op == 'ite':
            out.setdefault(x.a[0], 1)
            go(x.a[1])
            go(x.a[2])
    go(t)
    return list(out)


def absent(t):
    """A missing value that is needed for t whatever the inputs."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.op == 'missing' or x.op in ('sub', 'len') and \
                x.a[0] is NONE:
            return x
        if x.op in ('ite', 'and', 'or') or id(x) in seen:
            continue
        seen.add(id(x))
        todo.extend(y for y in x.a if isinstance(y, T))
    return None


def contains(t, c):
    todo, seen = [t], set()
    n = not_(c) if kind(c) == 'bool' else c
    while todo:
        x = todo.pop()
        if x is c or x is n:
            return True
        if id(x) not in seen:
            seen.add(id(x))
            todo.extend(y for y in x.a if isinstance(y, T))
    return False


def varlen(t):
    """A sequence that may have any number of items."""
    if t.op == 'param':
        return t.a[1] not in (None, 'opt') or True
    if t.op == 'prop':
        return True
    if t.op == 'call' and t.a[0].op == 'meth':
        return t.a[0].a[0] in ('read_where', 'col', 'time', 'pos', 'trajid',
                               'velocity', 'accel')
    if t.op == 'sub':
        i = t.a[1]
        return varlen(t.a[0]) and (
            i.op == 'const' and i.a[0] == 'str' or i.op in ('map', 'smap') or
            i.op == 'sub' and i.a[0].op in ('fields', 'keys'))
    if t.op in ('map', 'list'):
        return t.op == 'map' and num(t.a[1]) is None
    return False


def first(i):
    """Bounds along the first axis, and what is taken of the others."""
    if i.op == 'tuple' and i.a:
        r = first(i.a[0])
        return r and (r[0], i.a[1:])
    if i.op == 'slice':
        return tuple(i.a), ()
    if num(i) is not None:
        return (i,), ()
    return None


def within_parts(a, b):
    """Whether the parts of a are some of those of concatenation b."""
    xs = list(a.a) if a.op == 'lcat' else [a]
    ys = iter(b.a)
    return len(xs) < len(b.a) and all(any(y is x for y in ys) for x in xs)


ORDERS = frozenset(['lt', 'le', 'eq'])


def signed(c):
    """(L, k, op): the comparison is L + k > 0, >= 0 or == 0."""
    x, y = c.a
    if kind(x) in ('str', 'bool', 'dict', 'list') or \
            kind(y) in ('str', 'bool', 'dict', 'list'):
        return None
    L, k = split_const(minus(y, x))
    if L is None:
        return None
    return L, k, c.op


def split_const(e):
    if num(e) is not None:
        return None, num(e)
    if e.op == 'add':
        ks = [x for x in e.a if num(x) is not None]
        if len(ks) == 1:
            return minus(e, ks[0]), num(ks[0])
    return e, 0


def implied(f, d):
    """What the comparison d is where f is true: True, False or None."""
    f, d = signed(f), signed(d)
    if f is None or d is None:
        return None
    L, k, o = f
    M, j, q = d
    if M is not L:
        if mul(M, const(-1)) is not L:
            return None
        if q == 'eq':
            M, j = L, -j
        elif o == 'eq':
            z = k + j               # -L + j where L = -k
            return z > 0 if q == 'lt' else z >= 0
        else:
            # L > -k (or >=); d: L < j (or <=)
            if j < -k or j == -k and (o == 'lt' or q == 'lt'):
                return False
            return None
    if o == 'eq':
        z = j - k
        return z > 0 if q == 'lt' else z >= 0 if q == 'le' else z == 0
    if q == 'eq':
        return False if j > k or j == k and o == 'lt' else None
    if j > k or j == k and (o == 'lt' or q == 'le'):
        return True
    return None


def follow(t, c, v, m):
    """Note in m what else is known where c is v."""
    if not v:
        c = not_(c)
        if c.op not in ORDERS:
            return
    if t.sz > 3000:
        return
    for d in subterms(t):
        if d.op in ORDERS and d not in m:
            r = implied(c, d)
            if r is not None:
                m[d] = const(r)
        elif d.op in ('min', 'max') or judge.glob(d, 'min', 'max'):
            a = d.a[1].a if d.op == 'call' else d.a
            if len(a) == 2 and (d.op != 'call' or not d.a[2].a):
                r = implied(c, mk('le', a[0], a[1]))
                if r is None:
                    r = implied(c, mk('lt', a[1], a[0]))
                    r = None if r is None else not r
                if r is not None:
                    big = d.op == 'max' or d.op == 'call' and \
                        d.a[0].a[0] == 'max'
                    m[d] = a[1] if r == big else a[0]


def restr(t, c, v):
    """t where condition c is known to have the truth value v."""
    m = {}

    def know(c, v):
        m[c] = const(v)
        if kind(c) == 'bool':
            m[not_(c)] = const(not v)
        if c.op == ('and' if v else 'or'):
            for x in c.a:
                know(x, v)
        elif c.op == 'not':
            know(c.a[0], not v)
        elif c.op == 'isnone' and c.a[0].op == 'param':
            if v:
                m[c.a[0]] = NONE
                m[mk('truth', c.a[0])] = FALSE
        elif c.op == 'truth' and c.a[0].op == 'param':
            if v:
                m[mk('isnone', c.a[0])] = FALSE
        elif v and reduction(c) == 'numpy.all':
            x = c.a[0] if c.op == 'truth' else c
            every.append(x.a[1].a[0])
        elif c.op == 'is' and v and c.a[0].op == 'param':
            m[c.a[0]] = c.a[1]
        elif c.op == 'is' and v and c.a[1].op == 'param':
            m[c.a[1]] = c.a[0]
    every = []
    know(c, v)
    for d, w in list(m.items()):
        if d.op in ORDERS and w.a[0] == 'bool':
            follow(t, d, w is TRUE, m)
    t = subst(restrict(t, c, v), m)
    for M in every:
        t = unmask(t, M)
    return t


def unmask(t, M):
    """All items of mask M are true: X[M] is X."""
    P = plain(M)
    m, todo, seen = {}, [t], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'sub':
            i = x.a[1]
            if plain(i) is P:
                m[x] = x.a[0]
            elif i.op == 'tuple' and len(i.a) and plain(i.a[0]) is P:
                m[x] = mk('sub', x.a[0], mk('tuple', FULL, *i.a[1:]))
        todo.extend(y for y in x.a if isinstance(y, T))
    return subst(t, m) if m else t


def reorder(t, x, y):
    """The diagram with condition x replaced by y."""
    if t.op != 'ite':
        return t
    c = y if t.a[0] is x else t.a[0]
    return ite(c, reorder(t.a[1], x, y), reorder(t.a[2], x, y))


def alternatives(t, c=(), s=False):
    if t.op != 'ite':
        return [(c, t, s)]
    x = t.a[0]
    return alternatives(t.a[1], c + (x,), s or not trust(x, True)) + \
        alternatives(t.a[2], c + (not_(x),), s or not trust(x, False))


def worst(r1, r2):
    if r1.s == DIFF:
        return r1
    if r2.s == DIFF:
        return r2
    if r1.s == UND:
        return r1
    return r2


def dupds(d):
    out = {}
    while d.op == 'dupd':
        out.setdefault(d.a[1], d.a[2])
        d = d.a[0]
    return out, d


def compare(a, b):
    return Cmp().cmp(a, b)


def c_effect(self, a, b):
    if a.a[:2] != b.a[:2]:
        return und('effect', a, b)
    return self.every([(a.a[2], b.a[2]), (a.a[3], b.a[3])])


Cmp.c_effect = c_effect
