"""
Witnesses for a difference between two terms that are written differently.

deps    an input the value of one depends on, and the other does not mention
poly    sums and products over the same parts that are not the same polynomial
applied a function that changes its argument, and the argument as it is
"""
from fractions import Fraction

from .terms import *

# the values of the arguments do not come into these, only how many there are
SHAPE = frozenset(['len', 'shape', 'ndim', 'isnone', 'exists', 'hasprop',
                   'fields', 'keys', 'schema', 'hassection', 'cfghas',
                   'missing'])
SHAPEF = frozenset(['numpy.zeros_like', 'numpy.ones_like',
                    'numpy.empty_like', 'numpy.full_like', 'numpy.shape',
                    'numpy.size', 'numpy.ndim', 'isinstance', 'len',
                    'type', 'hasattr'])
WHOLE = frozenset(['prop', 'sub', 'len', 'shape', 'ndim', 'attr', 'isnone',
                   'truth', 'hasprop', 'map', 'fold', 'ite'])
# may read anything of an object
DYNAMIC = frozenset(['as_dict', 'getattr', 'items', 'values', 'get', 'vars',
                     '__getattribute__', 'operator.attrgetter',
                     'operator.methodcaller', 'operator.itemgetter',
                     'copy.copy', 'copy.deepcopy', 'pop'])
_dep, _men = {}, {}


def key(t):
    if t.op == 'param':
        return ('input', t.a[0])
    if t.op == 'prop':
        return ('property', t.a[1]) if isinstance(t.a[1], str) else None
    if t.op == 'sub' and t.a[1].op == 'const' and t.a[1].a[0] == 'str':
        return ('column', t.a[1].a[1])
    if t.op == 'cfgget':
        return ('option', t.a[1].d)
    if t.op == 'call' and t.a[0].op == 'meth' and t.a[0].a[0] in (
            'pos', 'velocity', 'time', 'trajid', 'accel', 'companion'):
        return ('property', t.a[0].a[0])
    return None


def deps(t):
    """Inputs the value depends on whatever conditions hold: {key: term}."""
    r = _dep.get(t)
    if r is not None:
        return r
    out, seen, todo = {}, set(), [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        k = key(x)
        if k is not None:
            out.setdefault(k, x)
        if x.op in SHAPE or x.op == 'attr' and x.a[1] in (
                'dtype', 'shape', 'ndim', 'size'):
            continue
        xs = x.a
        if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in SHAPEF:
            xs = x.a[1].a[1:]
        elif x.op == 'ite':
            d1, d2 = deps(x.a[1]), deps(x.a[2])
            for k in d1:
                if k in d2:
                    out.setdefault(k, d1[k])
            continue
        elif x.op in ('map', 'fold') and isinstance(x.a[1], T) and \
                x.a[1].op == 'len':
            xs = x.a[2:]
        todo.extend(y for y in xs if isinstance(y, T))
    _dep[t] = out
    return out


def mentions(t):
    """All keys anywhere in it, and inputs used as a whole."""
    r = _men.get(t)
    if r is not None:
        return r
    ks, whole, dyn = set(), set(), False
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        k = key(x)
        if k is not None:
            ks.add(k)
        if x.op in ('opaque', 'unknown', 'undef', 'props', 'as_dict',
                    'lv', 'propk', 'accessor', 'objd', 'setdict',
                    'accessork'):
            dyn = True
        if x.op == 'call' and (
                x.a[0].op == 'meth' and x.a[0].a[0] in DYNAMIC or
                x.a[0].op == 'glob' and x.a[0].a[0] in DYNAMIC):
            dyn = True
        if x.op == 'sub' and x.a[1].op != 'const' and kind(x.a[1]) == 'str':
            dyn = True
        if x.op == 'prop' and not isinstance(x.a[1], str):
            dyn = True
        if x.op not in WHOLE:
            for y in x.a:
                if isinstance(y, T) and y.op == 'param':
                    whole.add(y.a[0])
        todo.extend(y for y in x.a if isinstance(y, T))
    _men[t] = ks, whole, dyn
    return _men[t]


def roots(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'param':
            out.add(x.a[0])
        todo.extend(y for y in x.a if isinstance(y, T))
    return out


def dependency(x, y):
    """(missing, term) where one depends on what the other does not have."""
    for p, q, missing in ((x, y, True), (y, x, False)):
        ks, whole, dyn = mentions(p)
        if dyn:
            continue
        for k, t in sorted(deps(q).items(), key=lambda i: str(i[0])):
            if k in ks:
                continue
            if k[0] in ('property', 'column') and roots(t) & whole:
                continue
            return missing, t
    return None


# ------------------------------------------------------------------ sums

LIMIT = 60


def poly(t):
    """{((atom, exponent), ...): coefficient} or None."""
    n = num(t)
    if n is not None:
        return {(): Fraction(n)} if n else {}
    if t.op == 'add':
        out = {}
        for x in t.a:
            p = poly(x)
            if p is None:
                return None
            for m, c in p.items():
                out[m] = out.get(m, 0) + c
        return dict((m, c) for m, c in out.items() if c)
    if t.op == 'mul':
        out = {(): Fraction(1)}
        for x in t.a:
            p = poly(x)
            if p is None:
                return None
            new = {}
            for m, c in out.items():
                for n2, d in p.items():
                    k = times(m, n2)
                    new[k] = new.get(k, 0) + c * d
            if len(new) > LIMIT:
                return None
            out = dict((m, c) for m, c in new.items() if c)
        return out
    if t.op == 'pow':
        e = num(t.a[1])
        b = t.a[0]
        if e is not None and e == int(e):
            if e > 0 and e < 6:
                p = poly(b)
                if p is None:
                    return None
                out = {(): Fraction(1)}
                for i in range(int(e)):
                    new = {}
                    for m, c in out.items():
                        for n2, d in p.items():
                            k = times(m, n2)
                            new[k] = new.get(k, 0) + c * d
                    if len(new) > LIMIT:
                        return None
                    out = new
                return dict((m, c) for m, c in out.items() if c)
            return {((b, int(e)),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


def times(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e),
                        key=lambda i: i[0].d))


def atoms(p):
    return set(a for m in p for a, e in m)


def arith(x, y):
    """True: the same; False: not the same; None: not known."""
    if not (x.op in ('add', 'mul', 'pow') or y.op in ('add', 'mul', 'pow')):
        return None
    for t in (x, y):
        if kind(t) in ('str', 'list', 'tuple', 'dict', 'bool'):
            return None
    p, q = poly(x), poly(y)
    if p is None or q is None:
        return None
    if p == q:
        return True
    A, B = atoms(p), atoms(q)
    if not A or not B:
        return None
    for a in A | B:
        if a.op in ('ite', 'const', 'lsum', 'arr', 'lcat', 'call', 'map') \
                and (a not in A or a not in B):
            return None
    one, two = A - B, B - A
    if one and two:
        return None
    if any(not deps(a) and not (a.op == 'glob') for a in one | two):
        return None
    return False


# ----------------------------------------------------- function not applied

CHANGES = {
    'numpy.sort': 'order', 'sorted': 'order', 'numpy.unique': 'order',
    'numpy.abs': 'nonneg', 'numpy.sqrt': '', 'numpy.exp': '',
    'numpy.log': '', 'numpy.log10': '', 'numpy.cumsum': '', 'numpy.diff': '',
    'numpy.roll': '', 'numpy.argsort': '', 'numpy.floor': 'int',
    'numpy.ceil': 'int', 'numpy.round': 'int', 'numpy.rint': 'int',
    'os.path.expanduser': '', 'numpy.transpose': '', 'reversed': '',
    'numpy.flip': '', 'numpy.flipud': '', 'numpy.nonzero': '',
    'numpy.linalg.inv': '', 'numpy.linalg.pinv': '', 're.escape': '',
}
SORTED = ('numpy.sort', 'sorted', 'numpy.unique', 'numpy.arange', 'range',
          'numpy.nonzero', 'numpy.flatnonzero')


def ordered(x):
    if x.op == 'sub':
        return ordered(x.a[0])
    if x.op == 'call' and x.a[0].op == 'glob':
        return x.a[0].a[0] in SORTED
    return x.op in ('rangelen', 'ix')


def applied(x, y):
    for p, q in ((x, y), (y, x)):
        if q.op == 'call' and q.a[0].op == 'glob' and q.a[1].a and \
                q.a[0].a[0] in CHANGES and q.a[1].a[0] is p:
            w = CHANGES[q.a[0].a[0]]
            if w == 'order' and ordered(p) or w == 'nonneg' and (
                    p.op == 'len' or kind(p) == 'bool') or \
                    w == 'int' and kind(p) == 'int':
                continue
            if q.a[0].a[0] == 'numpy.transpose' and p.op in (
                    'prop', 'call') and False:
                continue
            return q
    return None


def reversed_(x, y):
    for p, q in ((x, y), (y, x)):
        if q.op == 'sub' and q.a[0] is p and q.a[1].op == 'slice' and \
                q.a[1].a[0] is NONE and q.a[1].a[1] is NONE and \
                num(q.a[1].a[2]) == -1:
            return q
    return None


# ------------------------------------------------------------ all together

def swapped(x, y):
    """The same function with two arguments exchanged."""
    if x.op != 'call' or y.op != 'call' or x.a[0] is not y.a[0] or \
            x.a[0].op != 'glob':
        return None
    A, B = x.a[1].a, y.a[1].a
    if len(A) != len(B) or x.a[2] is not y.a[2] or \
            x.a[0].a[0] in SYMM:
        return None
    bad = [i for i in range(len(A)) if A[i] is not B[i]]
    if len(bad) == 2 and A[bad[0]] is B[bad[1]] and A[bad[1]] is B[bad[0]]:
        return True
    return None


SYMM = ('min', 'max', 'numpy.minimum', 'numpy.maximum', 'numpy.logical_and',
        'numpy.logical_or', 'numpy.fmin', 'numpy.fmax', 'numpy.inner',
        'numpy.vdot', 'numpy.add', 'numpy.multiply', 'numpy.array_equal',
        'numpy.allclose', 'numpy.isclose', 'numpy.union1d',
        'numpy.intersect1d', 'numpy.hypot', 'math.hypot', 'numpy.logical_xor')


def find(a, b):
    """A reason why the two cannot be the same, or None."""
    if a.op in ('opaque', 'unknown', 'undef') or \
            b.op in ('opaque', 'unknown', 'undef'):
        return None
    if arith(a, b) is False:
        return 'another polynomial'
    if applied(a, b) is not None:
        return 'a function is not applied'
    if swapped(a, b):
        return 'arguments exchanged'
    return None
