"""
Hash-consed value-flow terms and their normal forms.

A term is a node of a gated value-flow graph: what a variable holds, written in
terms of the inputs of the analysed code.  Two pieces of code that compute the
same value in a different way (temporaries, helpers, flipped conditions,
comprehension or loop, % or f-string) are meant to get the *same* node, so the
smart constructors here do the normalising.  Nothing is ever evaluated on data
and no path is enumerated: branches are merged with ``ite`` nodes.
"""
import hashlib
from fractions import Fraction

_table = {}


class T(object):
    __slots__ = ('op', 'a', 'd', 'src', 'h', 'fl', 'sz', '__weakref__')

    def __repr__(self):
        return show(self)


class Undecided(Exception):
    """The analysis met something it has no model for."""


class Cur(object):
    """Where in the source the interpreter is now; kept for reports."""
    src = None


def _dig(op, a):
    m = hashlib.blake2b(digest_size=10)
    m.update(op.encode())
    for x in a:
        if isinstance(x, T):
            m.update(b'T')
            m.update(x.d)
        else:
            m.update(repr((type(x).__name__, x)).encode())
    return m.digest()


def mk(op, *a):
    key = (op,) + tuple(id(x) if isinstance(x, T) else (type(x), x) for x in a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.d = op, a, _dig(op, a)
        t.src = Cur.src
        h, fl, sz = 0, frozenset(), 1
        for x in a:
            if isinstance(x, T):
                h = max(h, x.h)
                sz += x.sz
                if x.fl:
                    fl = fl | x.fl
        if op == 'ix':
            fl = fl | {a[0]}
        elif op == 'bv':
            fl = fl | {('bv', a[0])}
        elif op in ('ref', 'lv', 'opaque', 'nobrk'):
            fl = fl | {op}
        if op in BINDERS:
            # the bound variable is not free any more
            fl = fl - {('bv', a[0])}
            h = max(h, a[0])
        t.h, t.fl, t.sz = h, fl, min(sz, 10**9)
        _table[key] = t
    elif t.src is None or (Cur.src is not None and t.src[0] == '<spec>'):
        t.src = Cur.src
    return t


# ops whose a[0] is the height of the bound index variable
BINDERS = frozenset(['map', 'dmap', 'lupd', 'lsum', 'fold', 'first', 'last',
                     'exists', 'until', 'count', 'whilen', 'dapp', 'foreach', 'lupdm', 'smap'])


def const(v):
    if isinstance(v, bool):
        return mk('const', 'bool', v)
    if v is None:
        return mk('const', 'none', None)
    if v is Ellipsis:
        return mk('const', 'ellipsis', '...')
    if isinstance(v, int):
        return mk('const', 'int', v)
    if isinstance(v, float):
        return mk('const', 'float', repr(v))
    if isinstance(v, complex):
        return mk('const', 'complex', repr(v))
    if isinstance(v, str):
        return mk('const', 'str', v)
    if isinstance(v, bytes):
        return mk('const', 'bytes', repr(v))
    raise Undecided('constant %r' % (v,))


NONE, TRUE, FALSE = const(None), const(True), const(False)
ELL = const(Ellipsis)
ZERO, ONE = const(0), const(1)
FULL = mk('slice', NONE, NONE, NONE)


def is_const(t):
    return t.op == 'const'


def cval(t):
    k, v = t.a
    if k == 'float':
        return float(v)
    if k == 'ellipsis':
        return Ellipsis
    return v


def num(t):
    """Exact rational value of a numeric constant or None."""
    if t.op == 'const':
        if t.a[0] == 'int':
            return Fraction(t.a[1])
        if t.a[0] == 'float':
            v = t.a[1]
            if v in ('inf', '-inf', 'nan'):
                return None
            return Fraction(v)
    elif t.op == 'rat':
        return Fraction(t.a[0], t.a[1])
    return None


def numc(fr, isint=True):
    fr = Fraction(fr)
    if fr.denominator == 1:
        return const(int(fr))
    return mk('rat', fr.numerator, fr.denominator)


# ----------------------------------------------------------------- kinds

STRFN = frozenset(['str.format', 'os.path.join', 'os.path.expanduser', 'str'])
OPAQUE_KIND = {}
# lists of objects of one kind
ELEMS = {'[int]': 'int', '[[int]]': '[int]', 'trajs': 'traj', 'snaps': 'snap'}
ARRAY_KINDS = frozenset(['arr', 'arr1', 'arr2', 'arr3'])


def kind(t):
    """A coarse type: 'int' 'float' 'bool' 'str' 'list' 'tuple' 'dict' 'set'
    'none' 'arr' 'func' 'obj' or None."""
    op = t.op
    if op == 'const':
        return t.a[0]
    if op == 'param':
        return 'list' if t.a[1] in ELEMS else t.a[1]
    if op == 'arr':
        return 'arr'
    if op in ('list', 'rep', 'lcat', 'map', 'sorted'):
        return 'list'
    if op == 'tuple':
        return 'tuple'
    if op in ('dict', 'dmap', 'dupd', 'dminus', 'props', 'schema'):
        return 'dict'
    if op in ('set', 'smap'):
        return 'set'
    if op in ('str', 'fmtv', 'join'):
        return 'str'
    if op in ('lt', 'le', 'eq', 'ne', 'and', 'or', 'not', 'isnone', 'in',
              'truth', 'exists', 'hasprop', 'is', 'exc', 'isstartswith',
              'isendswith', 'contains', 'cfghas', 'hassection'):
        return 'bool'
    if op in ('len', 'ix', 'bv', 'count'):
        return 'int'
    if op in ('func', 'class', 'bound', 'glob'):
        return 'func'
    if op in ('obj', 'new'):
        return 'obj'
    if op == 'rat':
        return 'float'
    if op == 'ite':
        k1, k2 = kind(t.a[1]), kind(t.a[2])
        if k1 == k2:
            return k1
        return None
    if op in ('add', 'mul', 'lsum'):
        ks = set(kind(x) for x in t.a if isinstance(x, T))
        if ks <= {'int'}:
            return 'int'
        if ks & ARRAY_KINDS:
            return 'arr'
        return None
    if op == 'sub':
        b = t.a[0]
        if b.op == 'param' and b.a[1] in ELEMS and \
                kind(t.a[1]) == 'int':
            return ELEMS[b.a[1]]
        kb = kind(b)
        if kb in ('arr1', 'arr2', 'arr3'):
            i = t.a[1]
            if i.op == 'slice' or kind(i) == 'arr1' or i.op == 'not' and \
                    kind(i.a[0]) == 'arr1':
                return kb
    if op == 'call':
        f = t.a[0]
        if f.op == 'glob':
            n = f.a[0]
            if n in OPAQUE_KIND:
                return OPAQUE_KIND[n]
            if n in STRFN:
                return 'str'
            if n == 'int' or n == 'numpy.int64':
                return 'int'
            if n == 'float':
                return 'float'
            if n == 'str':
                return 'str'
            if n in ('os.listdir',):
                return 'list'
            if n == 'set':
                return 'set'
            if n in ('numpy.zeros', 'numpy.ones', 'numpy.empty') and \
                    t.a[1].a and t.a[1].a[0].op == 'tuple' and \
                    1 <= len(t.a[1].a[0].a) <= 3:
                return 'arr%d' % len(t.a[1].a[0].a)
            if n.startswith('numpy.'):
                return 'arr'
        return None
    if op == 'upd':
        return kind(t.a[0])
    if op == 'fold':
        return kind(t.a[2].a[0])
    if op == 'last':
        return kind(t.a[2])
    if op == 'lv':
        return {'dictlist': 'dict', 'listlist': 'list'}.get(t.a[2], t.a[2])
    if op == 'dapp':
        return kind(t.a[1])
    if op == 'sub' and (t.a[0].op == 'lv' or t.a[0].op in (
            'dupd', 'upd', 'dapp', 'fold', 'dmap', 'setlv')):
        if t.a[1].op != 'slice' and listdict(t.a[0]):
            return 'list'
        b = t.a[0]
        while b.op in ('dupd', 'upd', 'dapp'):
            b = b.a[0] if b.op != 'dapp' else b.a[1]
        if b.op == 'lv' and b.a[2] in ('dictlist', 'listlist') and \
                t.a[1].op != 'slice':
            return 'list'
    if op == 'cfgconv':
        return {'getint': 'int', 'getfloat': 'float',
                'getboolean': 'bool'}.get(t.a[0])
    if op in ('cfgget', 'cfgpath'):
        return 'str'
    if op == 'shape':
        return 'tuple'
    return None


def listdict(b):
    """A dictionary, all items of which are lists."""
    while b.op in ('dupd', 'setlv', 'fold'):
        if b.op == 'fold':
            v = b.a[3].a[0]
            while v.op == 'fold':
                v = v.a[3].a[0]
            if v.op not in ('dupd', 'setlv') or v.a[2].op == 'arr':
                return False
            b = b.a[2].a[0]
        else:
            if b.a[2].op == 'arr':
                return False
            b = b.a[0]
    if b.op == 'dmap':
        return b.a[3].op != 'arr' and kind(b.a[3]) == 'list'
    return b.op == 'lv' and b.a[2] == 'dictlist'


def truth(t):
    if t.op == 'const':
        if t.a[0] == 'float':
            return const(float(t.a[1]) != 0)
        if t.a[0] == 'ellipsis':
            return TRUE
        return const(bool(t.a[1]))
    if t.op in ('list', 'tuple'):
        return const(len(t.a) > 0)
    if t.op == 'dict':
        return const(len(t.a) > 0)
    if t.op in ('func', 'class', 'bound', 'glob', 'obj'):
        return TRUE
    k = kind(t)
    if k == 'bool':
        return t
    if t.op == 'ite':
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if k in ('list', 'dict', 'set'):
        return lt(ZERO, length(t))
    if k == 'str':
        return ne(t, const(''))
    if k in ('int',):
        return ne(t, ZERO)
    return mk('truth', t)


# ----------------------------------------------------------------- booleans

def not_(t):
    op = t.op
    if op == 'const':
        return const(not t.a[1])
    if op == 'not':
        return t.a[0]
    if op == 'lt':
        return le(t.a[1], t.a[0])
    if op == 'le':
        return lt(t.a[1], t.a[0])
    if op == 'eq':
        return ne(*t.a)
    if op == 'ne':
        return eq(*t.a)
    if op == 'and':
        return or_(*[not_(x) for x in t.a])
    if op == 'or':
        return and_(*[not_(x) for x in t.a])
    if op == 'ite':
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk('not', t)


def _ac(op, xs, unit, absorb):
    out = {}
    for x in xs:
        if x.op == op:
            for y in x.a:
                out[y.d] = y
        elif x is unit:
            continue
        elif x is absorb:
            return absorb
        else:
            out[x.d] = x
    if not out:
        return unit
    vals = [out[k] for k in sorted(out)]
    for v in vals:
        n = not_(v) if v.op in ('lt', 'le', 'eq', 'ne', 'not', 'isnone', 'in',
                                'truth', 'param', 'hasprop', 'exc') else None
        if n is not None and n.d in out:
            return absorb
    if len(vals) == 1:
        return vals[0]
    # absorption: x & (x | y) -> x
    other = 'or' if op == 'and' else 'and'
    keep = []
    for v in vals:
        if v.op == other and any(y.d in out for y in v.a):
            continue
        if v.op == other:
            # x & (~x | y) -> x & y
            neg = [y for y in v.a if not_(y).d not in out]
            if len(neg) < len(v.a):
                rest = [w for w in vals if w is not v]
                f = or_ if other == 'or' else and_
                return _ac(op, rest + [f(*neg)], unit, absorb)
        keep.append(v)
    vals = keep
    if len(vals) == 1:
        return vals[0]
    return mk(op, *vals)


def and_(*xs):
    return _canon(_ac('and', xs, TRUE, FALSE))


def or_(*xs):
    return _canon(_ac('or', xs, FALSE, TRUE))


_canon_memo = {}
MAXATOMS = 9


def _literal(t):
    """(atom, positive)"""
    n = not_(t)
    if t.op in ('not', 'le', 'ne') and n.op not in ('not', 'le', 'ne'):
        return n, False
    if n.op in ('not', 'le', 'ne') and t.op not in ('not', 'le', 'ne'):
        return t, True
    if n.d < t.d:
        return n, False
    return t, True


def _canon(t):
    """A formula of several levels in a form that only depends on the function
    it is of its atoms."""
    if t.op not in ('and', 'or') or not any(x.op in ('and', 'or')
                                            for x in t.a):
        return t
    r = _canon_memo.get(t)
    if r is not None:
        return r
    atoms = {}

    def collect(x):
        if x.op in ('and', 'or'):
            for y in x.a:
                collect(y)
        else:
            atoms.setdefault(_literal(x)[0], 1)
    collect(t)
    if len(atoms) > MAXATOMS:
        return t
    order = sorted(atoms, key=lambda x: x.d)
    n = len(order)
    full = (1 << (1 << n)) - 1
    pat = []
    for i in range(n):
        b = 1 << i
        block = ((1 << b) - 1) << b         # b zeros, then b ones
        m, w = block, 2 * b
        while w < (1 << n):
            m |= m << w
            w *= 2
        pat.append(m)
    idx = dict((x, i) for i, x in enumerate(order))

    def ev(x):
        if x.op == 'and':
            m = full
            for y in x.a:
                m &= ev(y)
            return m
        if x.op == 'or':
            m = 0
            for y in x.a:
                m |= ev(y)
            return m
        at, pos = _literal(x)
        m = pat[idx[at]]
        return m if pos else full & ~m
    f = ev(t)

    def co(f, i, v):
        """Cofactor, as a function on all rows."""
        b = 1 << i
        if v:
            g = f & pat[i]
            return g | (g >> b)
        g = f & ~pat[i] & full
        return g | (g << b)
    def build(f):
        if f == 0:
            return FALSE
        if f == full:
            return TRUE
        lits, dis = [], []
        for i in range(n):
            if f & ~pat[i] & full == 0:
                lits.append(order[i])
                f = co(f, i, True)
            elif f & pat[i] == 0:
                lits.append(not_(order[i]))
                f = co(f, i, False)
        if lits:
            return _ac('and', lits + [build(f)], TRUE, FALSE)
        for i in range(n):
            if pat[i] & ~f & full == 0:
                dis.append(order[i])
                f = co(f, i, False)
            elif (full & ~pat[i]) & ~f == 0:
                dis.append(not_(order[i]))
                f = co(f, i, True)
        if dis:
            return _ac('or', dis + [build(f)], FALSE, TRUE)
        for i in range(n):
            f1, f0 = co(f, i, True), co(f, i, False)
            if f1 != f0:
                return mk('or', *sorted([
                    _flat('and', order[i], build(f1)),
                    _flat('and', not_(order[i]), build(f0))],
                    key=lambda x: x.d))
    r = build(f)
    _canon_memo[t] = r
    return r


def _flat(op, *xs):
    out = []
    for x in xs:
        out.extend(x.a if x.op == op else [x])
    return mk(op, *sorted(set(out), key=lambda x: x.d))


def _cmpable(a, b):
    """Split a - b to (left, right, integer constant) with constants moved."""
    la, ca = _lin(a)
    lb, cb = _lin(b)
    return la, lb, ca - cb


def _strip(t):
    """t without its additive constant, and the constant."""
    if t.op == 'add':
        c = num(t.a[0])
        if c is not None:
            rest = t.a[1:]
            return (rest[0] if len(rest) == 1 else mk('add', *rest)), c
        return t, Fraction(0)
    c = num(t)
    if c is not None:
        return None, c
    return t, Fraction(0)


def _shift_cmp(a, b):
    """Move integer offsets of both sides to a single constant: a+c <> b"""
    ta, ca = _strip(a)
    tb, cb = _strip(b)
    return ta, tb, ca - cb


def _poscoef(a):
    return a


def _isnum(t):
    return num(t) is not None


def lt(a, b):
    if a is b:
        return FALSE
    r = _ilift(lt, a, b)
    if r is not None:
        return r
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return const(na < nb)
    if a.op == 'len' and nb is not None and nb <= 0:
        return FALSE
    if na is not None and na < 0 and b.op in ('len', 'ix', 'bv', 'count'):
        return TRUE
    ta, tb, c = _shift_cmp(a, b)
    if ta is not None and tb is not None:
        if ta is tb:
            return const(c < 0)
        if c.denominator == 1 and c < 0:
            return _le_raw(ta, tb, c + 1)
        return _lt_raw(ta, tb, c)
    # comparison with a constant
    if _intk(a) and _intk(b):
        # x < k  ->  x <= k-1 ; k < x -> k+1 <= x : keep 'lt' with 0-normal
        if tb is None and c.denominator == 1:       # ta < -c
            return _canon_const_le(ta, -c - 1)
        if ta is None and c.denominator == 1:       # c < tb
            return _canon_const_ge(tb, c + 1)
    return mk('lt', _whole(a), _whole(b))


def _whole(t):
    """2. -> 2, in comparisons."""
    if t.op == 'const' and t.a[0] == 'float' and t.a[1] == t.a[1] and \
            float(t.a[1]).is_integer():
        return const(int(float(t.a[1])))
    return t


def _intk(t):
    return kind(t) == 'int'


def _canon_const_le(x, k):
    """x <= k for integers; lengths compared with 0 get eq."""
    if x.op in ('len', 'count', 'ix', 'bv'):
        if k < 0:
            return FALSE
        if k == 0:
            return mk('eq', *sorted([x, ZERO], key=lambda t: t.d))
    return mk('le', x, numc(k))


def _canon_const_ge(x, k):
    if x.op in ('len', 'count', 'ix', 'bv'):
        if k <= 0:
            return TRUE
        if k == 1:
            return mk('ne', *sorted([x, ZERO], key=lambda t: t.d))
    # k <= x  == not (x <= k-1): keep one form
    return mk('lt', numc(k - 1), x)


def _lt_raw(ta, tb, c):
    if c == 0:
        return mk('lt', ta, tb)
    if c > 0:
        return mk('lt', add(ta, numc(c)), tb)
    return mk('lt', ta, add(tb, numc(-c)))


def _le_raw(ta, tb, c):
    if c == 0:
        return mk('le', ta, tb)
    if c > 0:
        return mk('le', add(ta, numc(c)), tb)
    return mk('le', ta, add(tb, numc(-c)))


def le(a, b):
    if a is b:
        return TRUE
    r = _ilift(le, a, b)
    if r is not None:
        return r
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return const(na <= nb)
    if na is not None and na <= 0 and b.op in ('len', 'ix', 'bv', 'count'):
        return TRUE
    ta, tb, c = _shift_cmp(a, b)
    if ta is not None and tb is not None:
        if ta is tb:
            return const(c <= 0)
        if c.denominator == 1 and c > 0:
            return _lt_raw(ta, tb, c - 1)
        return _le_raw(ta, tb, c)
    if _intk(a) and _intk(b):
        if tb is None and c.denominator == 1:
            return _canon_const_le(ta, -c)
        if ta is None and c.denominator == 1:
            return _canon_const_ge(tb, c)
    return mk('le', _whole(a), _whole(b))


def _ilift(f, a, b):
    """Lift an ite operand out of a binary operator."""
    if a.op == 'ite' and leaves(a) * leaves(b) <= LIFT:
        return ite(a.a[0], f(a.a[1], b), f(a.a[2], b))
    if b.op == 'ite' and leaves(a) * leaves(b) <= LIFT:
        return ite(b.a[0], f(a, b.a[1]), f(a, b.a[2]))
    return None


LIFT = 48


def leaves(t):
    if t.op != 'ite':
        return 1
    seen = {}

    def go(x):
        if x.op != 'ite':
            return 1
        if x in seen:
            return seen[x]
        seen[x] = go(x.a[1]) + go(x.a[2])
        return seen[x]
    return go(t)


_NEVERNONE = frozenset(['list', 'tuple', 'dict', 'dmap', 'map', 'add', 'mul',
    'pow', 'str', 'fmtv', 'lt', 'le', 'eq', 'ne', 'and', 'or', 'not', 'len',
    'ix', 'bv', 'func', 'class', 'bound', 'glob', 'obj', 'new', 'upd', 'dupd',
    'shape', 'prop', 'rep', 'lcat', 'set', 'join', 'rat', 'slice', 'count',
    'lupd', 'lsum', 'dminus', 'props', 'schema', 'hasprop', 'truth', 'iter',
    'smap', 'col', 'floordiv', 'mod', 'sorted', 'int', 'in', 'isnone', 'exc',
    'abs', 'cast', 'neg', 'lupdm', 'gen', 'cfgget', 'cfgconv', 'cfgval',
    'arr', 'first', 'struct', 'inst', 'fold', 'sorted', 'lcat', 'setminus'])


def isnone(t):
    if t.op == 'const':
        return const(t.a[0] == 'none')
    if t.op == 'param':
        return mk('isnone', t) if t.a[1] == 'opt' else FALSE
    if t.op == 'ite':
        return ite(t.a[0], isnone(t.a[1]), isnone(t.a[2]))
    if t.op in _NEVERNONE:
        return FALSE
    if t.op == 'call':
        return FALSE
    if t.op == 'sub' and t.a[0].op in ('col', 'call', 'prop', 'shape'):
        return FALSE
    return mk('isnone', t)


def eq(a, b):
    if a is b:
        return TRUE
    r = _ilift(eq, a, b)
    if r is not None:
        return r
    if is_const(b) and b.a[0] == 'none':
        return isnone(a)
    if is_const(a) and a.a[0] == 'none':
        return isnone(b)
    if b is TRUE and kind(a) == 'bool':
        return a
    if a is TRUE and kind(b) == 'bool':
        return b
    if b is FALSE and kind(a) == 'bool':
        return not_(a)
    if a is FALSE and kind(b) == 'bool':
        return not_(b)
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return const(na == nb)
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b))
    if a.op == b.op and a.op in ('tuple', 'list') and len(a.a) == len(b.a):
        return and_(*[eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == b.op == 'tuple' and len(a.a) != len(b.a) and not any(
            x.op in ('starred', 'splice') for x in a.a + b.a):
        return FALSE
    if a.op in ('tuple', 'list') and is_const(b) or \
            b.op in ('tuple', 'list') and is_const(a):
        return FALSE
    if a.op in ('func', 'class') and b.op in ('func', 'class'):
        return FALSE
    if a.op == 'shape' and b.op == 'shape' and False:
        return None
    ka, kb = kind(a), kind(b)
    if 'str' in (ka, kb) and (a.op == 'const' or b.op == 'const'):
        ko = kb if ka == 'str' else ka
        if ko in ('int', 'float', 'bool', 'tuple', 'list', 'dict') \
                or ko in ARRAY_KINDS:
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and x.a[0] == 'str':
            if minlen(y) > len(x.a[1]):
                return FALSE
            if x.a[1] == '' and y.op == 'join' and y.a[1].op == 'map' and \
                    minlen(y.a[1].a[2]) > 0:
                return eq(length(y.a[1]), ZERO)
    # string with a known different prefix
    if a.op == 'str' or b.op == 'str':
        pa, pb = _spre(a), _spre(b)
        if pa is not None and pb is not None:
            m = min(len(pa), len(pb))
            if pa[:m] != pb[:m]:
                return FALSE
    ta, tb, c = _shift_cmp(a, b)
    if ta is not None and tb is not None and c != 0:
        if ta is tb:
            return FALSE
        if c > 0:
            a, b = add(ta, numc(c)), tb
        else:
            a, b = ta, add(tb, numc(-c))
    return mk('eq', *sorted([a, b], key=lambda t: t.d))


def minlen(t):
    """A lower bound of the length of a string."""
    if t.op == 'const':
        return len(t.a[1]) if t.a[0] == 'str' else 0
    if t.op == 'str':
        return sum(minlen(x) for x in t.a)
    if t.op == 'fmtv':
        return 1 if kind(t.a[1]) in ('int', 'float', 'bool') or \
            t.a[0] != 's' else 0
    if t.op == 'ite':
        return min(minlen(t.a[1]), minlen(t.a[2]))
    if t.op == 'join' and t.a[1].op == 'lcat':
        return max([minlen(y) for x in t.a[1].a if x.op == 'list'
                    for y in x.a] + [0])
    return 0


def _spre(t):
    if t.op == 'const' and t.a[0] == 'str':
        return t.a[1]
    if t.op == 'str' and t.a[0].op == 'const':
        return t.a[0].a[1]
    return None


def ne(a, b):
    e = eq(a, b)
    if e.op == 'eq':
        return mk('ne', *e.a)
    return not_(e)


# ----------------------------------------------------------------- ite

def _conds(c):
    return c


def ite(c, a, b):
    """Ordered decision diagram over atomic conditions."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op in ('ne', 'le') and c.op == 'ne':
        return ite(eq(*c.a), b, a)
    if c.op == 'le':
        # one polarity for comparisons
        return ite(lt(c.a[1], c.a[0]), b, a) \
            if lt(c.a[1], c.a[0]).op == 'lt' else _ite(c, a, b)
    if c.op == 'and':
        r = a
        for x in reversed(c.a):
            r = ite(x, r, b)
        return r
    if c.op == 'or':
        r = b
        for x in reversed(c.a):
            r = ite(x, a, r)
        return r
    if c.op == 'ite':
        return ite(c.a[0], ite(c.a[1], a, b), ite(c.a[2], a, b))
    return _ite(c, a, b)


_ite_memo = {}


def _ite(c, a, b):
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        r = a
    elif a is TRUE and b is FALSE:
        r = c
    elif a is FALSE and b is TRUE:
        r = not_(c)
    elif kind(a) == 'bool' and kind(b) == 'bool':
        if a is TRUE:
            r = or_(c, b)
        elif b is FALSE:
            r = and_(c, a)
        elif a is FALSE:
            r = and_(not_(c), b)
        elif b is TRUE:
            r = or_(not_(c), a)
        else:
            r = _order(c, a, b)
    elif a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a):
        r = mk('tuple', *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    else:
        r = _guard_idioms(c, a, b)
        if r is None:
            r = _order(c, a, b)
    _ite_memo[key] = r
    return r


def _counts(n, m):
    """n is what m is in one of its cases."""
    if n is m:
        return True
    if m.op == 'ite':
        return _counts(n, m.a[1]) or _counts(n, m.a[2])
    return n.op == 'ite' and (_counts(n.a[1], m) or _counts(n.a[2], m))


def _guard_idioms(c, a, b):
    """ite(n == 0, B, B[mask over n]) -> B[mask]: the guard for an empty mask
    has no effect on the value."""
    if c.op == 'eq' and (c.a[0] is ZERO or c.a[1] is ZERO):
        n = c.a[0] if c.a[1] is ZERO else c.a[1]
        if n.op in ('len', 'count', 'sub'):
            if b.op == 'sub' and b.a[0] is a and b.a[1].op == 'map' and (
                    n is b.a[1].a[1] or n.op == 'len' and
                    n.a[0] in (a, b.a[1]) or n.op == 'len' and
                    n.a[0].op == 'arr' and n.a[0].a[0].op == 'map' and
                    _counts(n.a[0].a[0].a[1], b.a[1].a[1]) or
                    _counts(n, b.a[1].a[1])):
                return b
    return None


def _order(c, a, b):
    # top-most atomic condition is the one with the smallest digest
    top = c
    for x in (a, b):
        if x.op == 'ite' and x.a[0].d < top.d:
            top = x.a[0]
    if top is c or leaves(a) + leaves(b) > 200:
        return mk('ite', c, a, b)
    a1, a0 = restrict(a, top, True), restrict(a, top, False)
    b1, b0 = restrict(b, top, True), restrict(b, top, False)
    x, y = _ite(c, a1, b1), _ite(c, a0, b0)
    if x is y:
        return x
    return _guard_idioms(top, x, y) or mk('ite', top, x, y)


def restrict(t, c, v):
    """t, knowing that atomic condition c has the truth value v (only looks at
    the decision diagram on top)."""
    if t.op == 'ite':
        if t.a[0] is c:
            return t.a[1] if v else t.a[2]
        x, y = restrict(t.a[1], c, v), restrict(t.a[2], c, v)
        if x is t.a[1] and y is t.a[2]:
            return t
        if x is y:
            return x
        return _guard_idioms(t.a[0], x, y) or mk('ite', t.a[0], x, y)
    if t is c:
        return const(v)
    if t.op in ('and', 'or') and kind(c) == 'bool':
        n = not_(c)
        ch = False
        xs = []
        for x in t.a:
            if x is c:
                xs.append(const(v))
                ch = True
            elif x is n:
                xs.append(const(not v))
                ch = True
            else:
                xs.append(x)
        if ch:
            return (and_ if t.op == 'and' else or_)(*xs)
    elif t.op in ('not', 'ne', 'le', 'lt', 'eq') and kind(c) == 'bool' \
            and t is not_(c):
        return const(not v)
    return t


def lift(build, args, maxl=LIFT):
    """build(*args), with ite operands lifted out of it."""
    n = 1
    for i, x in enumerate(args):
        if isinstance(x, T) and x.op == 'ite':
            n *= leaves(x)
    if n == 1 or n > maxl:
        return build(*args)
    for i, x in enumerate(args):
        if isinstance(x, T) and x.op == 'ite':
            l1, l2 = list(args), list(args)
            l1[i], l2[i] = x.a[1], x.a[2]
            # the same condition elsewhere is decided too
            for j, y in enumerate(args):
                if j != i and isinstance(y, T):
                    l1[j] = restrict(y, x.a[0], True)
                    l2[j] = restrict(y, x.a[0], False)
            return ite(x.a[0], lift(build, l1, maxl), lift(build, l2, maxl))
    return build(*args)


# ----------------------------------------------------------------- arithmetic

def _lin(t):
    return _linear(t)


def _linear(t):
    """dict of addends -> coefficient, and the constant."""
    c = num(t)
    if c is not None:
        return {}, c
    if t.op == 'add':
        out, k = {}, Fraction(0)
        for x in t.a:
            d, c = _linear(x)
            k += c
            for y, m in d.items():
                out[y] = out.get(y, 0) + m
        return out, k
    if t.op == 'mul':
        c = num(t.a[0])
        if c is not None:
            rest = t.a[1:]
            r = rest[0] if len(rest) == 1 else mk('mul', *rest)
            return {r: c}, Fraction(0)
    return {t: Fraction(1)}, Fraction(0)


def _from_linear(d, k):
    items = []
    for t, c in d.items():
        if c == 0:
            continue
        if c == 1:
            items.append(t)
        elif t.op == 'mul':
            items.append(mk('mul', numc(c), *t.a))
        else:
            items.append(mk('mul', numc(c), t))
    items.sort(key=lambda t: t.d)
    if k != 0 or not items:
        kk = numc(k)
        items.insert(0, kk)
    if len(items) == 1:
        return items[0]
    return mk('add', *items)


def add(*xs):
    xs = [x for x in xs]
    if any(x.op == 'ite' for x in xs):
        return lift(add, xs) if _small(xs) else _add(xs)
    return _add(xs)


def _small(xs):
    n = 1
    for x in xs:
        n *= leaves(x)
    return n <= LIFT


def _add(xs):
    # sequences and strings
    ks = [kind(x) for x in xs]
    if 'str' in ks:
        return strcat(*xs)
    if 'list' in ks or 'tuple' in ks:
        # numpy array + list is arithmetic, list + list is a concatenation
        if all(k in ('list', 'tuple', None) for k in ks) and \
                not any(_arrayish(x) for x in xs):
            return seqcat(*xs)
    if len(xs) == 1:
        return xs[0]
    if any(_isinf(x) for x in xs):
        return mk('add', *sorted(xs, key=lambda t: t.d))
    d, k = {}, Fraction(0)
    for x in xs:
        dx, kx = _linear(x)
        k += kx
        for y, m in dx.items():
            d[y] = d.get(y, 0) + m
    return _from_linear(d, k)


def _arrayish(x):
    return x.op in ('map',) and False


def _isinf(x):
    return x.op == 'const' and x.a[0] == 'float' and num(x) is None


def neg(x):
    if x.op == 'ite':
        return ite(x.a[0], neg(x.a[1]), neg(x.a[2]))
    if _isinf(x):
        return const(-float(x.a[1]))
    if x.op == 'glob' and x.a[0] == 'numpy.inf':
        return const(float('-inf'))
    d, k = _linear(x)
    return _from_linear(dict((t, -c) for t, c in d.items()), -k)


def minus(a, b):
    if kind(a) == 'set' or kind(b) == 'set':
        return mk('setminus', a, b)
    return add(a, neg(b))


def mul(*xs):
    if any(x.op == 'ite' for x in xs) and _small(xs):
        return lift(mul, xs)
    # repetition of lists
    if len(xs) == 2:
        for p, q in (xs, xs[::-1]):
            if kind(p) in ('list', 'tuple', 'str') and \
                    kind(q) not in ('list', 'tuple') and \
                    not (kind(q) in ARRAY_KINDS or kind(q) == 'arr') and \
                    p.op in ('list', 'tuple', 'const'):
                n = num(q)
                if p.op in ('list', 'tuple') and n is not None and n < 20:
                    return mk(p.op, *(p.a * int(n)))
                return mk('rep', p, q)
    c = Fraction(1)
    pw = {}
    for x in xs:
        for base, e in _factors(x):
            n = num(base)
            ne_ = num(e)
            if n is not None and ne_ is not None and ne_.denominator == 1 \
                    and (n != 0 or ne_ > 0) and abs(ne_) < 30:
                c *= n ** int(ne_)
                continue
            if base in pw:
                pw[base] = add(pw[base], e)
            else:
                pw[base] = e
    items = []
    for b, e in pw.items():
        ne_ = num(e)
        if ne_ == 0:
            continue
        items.append(b if ne_ == 1 else mk('pow', b, e))
    if c == 0:
        return ZERO
    if not items:
        return numc(c)
    items.sort(key=lambda t: t.d)
    if len(items) == 1:
        if c == 1:
            return items[0]
        if items[0].op == 'add':
            # distribute constants only
            d, k = _linear(items[0])
            return _from_linear(dict((t, m * c) for t, m in d.items()), k * c)
        return mk('mul', numc(c), items[0])
    # sign of an even power of differences, e.g. (a-b)**2, is normal already
    if c == 1:
        return mk('mul', *items)
    return mk('mul', numc(c), *items)


def _factors(x):
    if x.op == 'mul':
        out = []
        for y in x.a:
            out.extend(_factors(y))
        return out
    if x.op == 'pow':
        return [(x.a[0], x.a[1])]
    return [(x, ONE)]


def _signnorm(x):
    """x or -x, whichever is the representative; and whether it was flipped."""
    if x.op == 'add':
        m = neg(x)
        if m.op == 'add' and m.d < x.d:
            return m, True
    elif x.op == 'mul' and num(x.a[0]) is not None and num(x.a[0]) < 0:
        return neg(x), True
    return x, False


def power(b, e):
    r = _ilift(power, b, e)
    if r is not None:
        return r
    ne_ = num(e)
    nb = num(b)
    if ne_ is not None and ne_ == 1:
        return b
    if nb is not None and ne_ is not None and ne_.denominator == 1 and \
            abs(ne_) < 30 and (nb != 0 or ne_ > 0):
        return numc(nb ** int(ne_))
    if ne_ is not None and ne_.denominator == 1 and ne_ % 2 == 0:
        b, _ = _signnorm(b)
    if b.op == 'mul' and ne_ is not None:
        return mul(*[power(x, e) for x in b.a])
    if b.op == 'pow':
        if num(b.a[1]) is not None and ne_ is not None and \
                ne_.denominator == 1 and num(b.a[1]).denominator == 1:
            return power(b.a[0], mul(b.a[1], e))
        if ne_ is not None and ne_ == -1:
            return power(b.a[0], neg(b.a[1]))
    if b.op == 'call' and b.a[0].op == 'glob' and b.a[0].a[0] == 'numpy.sqrt' \
            and ne_ == 2:
        return b.a[1].a[0]
    return mk('pow', b, e)


def div(a, b):
    return mul(a, power(b, const(-1)))


# ----------------------------------------------------------------- strings

def strcat(*xs):
    parts = []
    for x in xs:
        if x.op == 'str':
            parts.extend(x.a)
        elif x.op == 'ite':
            if _small(xs):
                return lift(strcat, list(xs))
            parts.append(x)
        else:
            parts.append(x)
    out = []
    for p in parts:
        if p.op == 'const' and p.a[0] == 'str':
            if p.a[1] == '':
                continue
            if out and out[-1].op == 'const':
                out[-1] = const(out[-1].a[1] + p.a[1])
                continue
        out.append(p)
    if not out:
        return const('')
    if len(out) == 1:
        return out[0]
    return mk('str', *out)


def fmtv(spec, t):
    """A formatted value inside a string."""
    if t.op == 'ite' and leaves(t) < LIFT:
        return ite(t.a[0], fmtv(spec, t.a[1]), fmtv(spec, t.a[2]))
    if t.op == 'const':
        v = cval(t)
        try:
            if spec == 's':
                return const(str(v))
            if spec == 'r':
                return const(repr(v))
            return const(('%' + spec) % v)
        except Exception:
            pass
    k = kind(t)
    if spec == 's' and k == 'str':
        return t
    if spec in ('d', 'i') and k == 'int':
        spec = 's'
    if spec == 'r' and k in ('int', 'float'):
        spec = 's'
    return mk('fmtv', spec, t)


# ----------------------------------------------------------------- sequences

def seqcat(*xs):
    out = []
    tup = all(kind(x) == 'tuple' for x in xs)
    for x in xs:
        if x.op in ('list', 'tuple') and not x.a:
            continue
        if x.op == 'lcat':
            out.extend(x.a)
        elif out and x.op in ('list', 'tuple') and out[-1].op == x.op:
            out[-1] = mk(x.op, *(out[-1].a + x.a))
        else:
            out.append(x)
    if not out:
        return mk('tuple') if tup else mk('list')
    if len(out) == 1:
        return out[0]
    return mk('lcat', *out)


def length(t):
    op = t.op
    if op in ('list', 'tuple', 'dict'):
        return const(len(t.a))
    if op == 'const' and t.a[0] == 'str':
        return const(len(t.a[1]))
    if op == 'map':
        h, n, v, c = t.a
        if c is TRUE:
            return n
        return mk('count', h, n, c)
    if op == 'lcat':
        return add(*[length(x) for x in t.a])
    if op == 'rep':
        return mul(length(t.a[0]), t.a[1])
    if op in ('upd', 'lupd', 'like') and kind(t) != 'dict':
        return length(t.a[1] if op == 'lupd' else t.a[0])
    if op == 'ite':
        return ite(t.a[0], length(t.a[1]), length(t.a[2]))
    if op == 'keys':
        return length(t.a[0])
    if op in ('props',):
        return mk('len', t)
    if op in ('add',):
        # elementwise arithmetic keeps the length of an array operand
        ars = [x for x in t.a if kind(x) in ARRAY_KINDS or x.op in
               ('prop', 'sub')]
        if len(ars) == 1:
            return length(ars[0])
    if op == 'call' and t.a[0].op == 'glob':
        f, args = t.a[0].a[0], t.a[1].a
        if f in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full') \
                and args:
            s = args[0]
            if s.op == 'tuple' and s.a:
                return s.a[0]
            if s.op == 'lcat' and s.a[0].op == 'tuple':
                return s.a[0].a[0]
            if kind(s) == 'int' or s.op in ('len', 'add'):
                return s
            if s.op == 'shape':
                return length(s.a[0])
            if s.op == 'lcat' and s.a[0].op == 'shape':
                return length(s.a[0].a[0])
        if f in ('numpy.zeros_like', 'numpy.empty_like', 'numpy.ones_like',
                 'numpy.full_like', 'numpy.cumsum', 'numpy.exp',
                 'numpy.sqrt', 'sorted', 'numpy.sort', 'numpy.argsort',
                 'numpy.isinf', 'numpy.isnan', 'numpy.abs', 'numpy.isfinite') \
                and args:
            return length(args[0])
        if f == 'numpy.arange' and len(args) == 1:
            return args[0]
    if op == 'new':
        p = get_prop(t, 'pos')
        if p is not None:
            return length(p)
    if op == 'param' and len(t.a) > 2:
        return length(t.a[2])
    if op == 'param' and t.a[1] in ('traj', 'snap'):
        return mk('len', mk('prop', t, 'pos'))
    if op == 'prop' and t.a[1] != 'pos' and False:
        return None
    if op == 'sub' and t.a[1].op == 'const' and t.a[1].a[0] == 'str':
        return length(t.a[0])       # a column is as long as its table
    if op in ('not', 'lt', 'le', 'eq', 'ne', 'isnan') and \
            len(t.a) and isinstance(t.a[0], T):
        ars = [x for x in t.a if kind(x) in ARRAY_KINDS or x.op in
               ('prop', 'sub')]
        if len(ars) == 1:
            return length(ars[0])
    return mk('len', t)


def get_prop(t, name):
    """Property ``name`` of a ('new', cls, props dict) node."""
    d = t.a[1]
    return dget(d, const(name))


def dget(d, k):
    """d[k] for dictionary terms; None when unknown."""
    if d.op == 'dict':
        for kk, vv in _pairs(d):
            if kk is k:
                return vv
        return None
    if d.op == 'dupd':
        base, kk, vv = d.a
        e = eq(kk, k)
        if e is TRUE:
            return vv
        r = dget(base, k)
        if e is FALSE:
            return r
        if r is not None:
            return ite(e, vv, r)
        return None
    if d.op == 'dmap':
        h, n, kk, vv, c = d.a
        bv = mk('bv', h)
        # key is an element of some keys sequence: instantiate
        if kk.op == 'sub' and kk.a[1] is bv:
            if c is TRUE or True:
                cc = subst(c, {kk: k})
                vv2 = subst(vv, {kk: k})
                if mk('bv', h) not in _frees(vv2) and cc is TRUE:
                    return vv2
                if cc is TRUE and ('bv', h) not in vv2.fl:
                    return vv2
        return None
    if d.op == 'dminus':
        if any(eq(x, k) is TRUE for x in d.a[1:]):
            return None
        return dget(d.a[0], k)
    if d.op == 'ite':
        x, y = dget(d.a[1], k), dget(d.a[2], k)
        if x is None or y is None:
            return None
        return ite(d.a[0], x, y)
    if d.op == 'props':
        o = d.a[0]
        if k.op == 'const':
            return mk('prop', o, k.a[1])
        return mk('propk', o, k)
    return None


def _frees(t):
    return ()


def _pairs(d):
    return [(p.a[0], p.a[1]) for p in d.a]


def mkdict(pairs):
    out = {}
    for k, v in pairs:
        out[k] = v
    items = [mk('pair', k, v) for k, v in out.items()]
    items.sort(key=lambda p: p.a[0].d)
    return mk('dict', *items)


def dset(d, k, v):
    if d.op == 'dict' and (k.op == 'const' or not d.a or
                           all(p.a[0].op == 'const' for p in d.a) and
                           k.op == 'const'):
        ps = dict(_pairs(d))
        ps[k] = v
        return mkdict(ps.items())
    if d.op == 'dict' and all(eq(p.a[0], k) in (TRUE, FALSE) for p in d.a):
        ps = dict(_pairs(d))
        ps[k] = v
        return mkdict(ps.items())
    if d.op == 'dupd':
        b, kk, vv = d.a
        e = eq(kk, k)
        if e is TRUE:
            return dset(b, k, v)
        if e is FALSE and k.d < kk.d:
            return mk('dupd', dset(b, k, v), kk, vv)
    if d.op == 'ite' and leaves(d) < 16:
        return ite(d.a[0], dset(d.a[1], k, v), dset(d.a[2], k, v))
    if d.op == 'dmap':
        # leaving out what is set now makes no difference
        c = ne(d.a[2], k)
        x = d.a[4]
        if x is c:
            x = TRUE
        elif x.op == 'and' and c in x.a:
            x = and_(*[y for y in x.a if y is not c])
        if x is not d.a[4]:
            d = mk('dmap', *(d.a[:4] + (x,)))
    return mk('dupd', d, k, v)


# ----------------------------------------------------------------- binders

def close(uid, vals):
    """Turn index variable ``uid`` to a bound one in all of vals. Returns the
    height and the new values."""
    h = 1 + max([v.h for v in vals] + [0])
    ix = mk('ix', uid)
    bv = mk('bv', h)
    return h, [subst(v, {ix: bv}) for v in vals]


_rebuild = {}


def builder(op):
    def deco(f):
        _rebuild[op] = f
        return f
    return deco


def subst(t, m, memo=None):
    """Replace nodes of t by map m, re-normalising."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    # quick exit: nothing of the free index variables is inside
    ch = False
    na = []
    for x in t.a:
        if isinstance(x, T):
            y = subst(x, m, memo)
            ch = ch or y is not x
            na.append(y)
        else:
            na.append(x)
    if not ch:
        r = t
    else:
        r = rebuild(t.op, na)
        if r.src is None or r.src[0] == '<spec>':
            r.src = t.src
    memo[t] = r
    return r


def rebuild(op, a):
    f = _rebuild.get(op)
    if f is None:
        return mk(op, *a)
    return f(*a)


_rebuild.update({
    'add': add, 'mul': mul, 'pow': power, 'lt': lt, 'le': le, 'eq': eq,
    'ne': ne, 'and': and_, 'or': or_, 'not': not_, 'ite': ite,
    'isnone': isnone, 'truth': truth, 'str': strcat, 'len': length,
    'fmtv': fmtv, 'lcat': seqcat,
    'dict': lambda *ps: mkdict([(p.a[0], p.a[1]) for p in ps]),
    'dupd': dset,
})


# ----------------------------------------------------------------- printing

def show(t, depth=14):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.a
    if op == 'const':
        return repr(a[1]) if a[0] != 'float' else a[1]
    if op == 'rat':
        return '%d/%d' % a
    if op == 'param':
        return a[0]
    if op == 'glob':
        return a[0]
    if op == 'add':
        return '(' + ' + '.join(s(x) for x in a) + ')'
    if op == 'mul':
        return '(' + '*'.join(s(x) for x in a) + ')'
    if op == 'pow':
        return '%s**%s' % (s(a[0]), s(a[1]))
    if op in ('lt', 'le', 'eq', 'ne'):
        return '(%s %s %s)' % (s(a[0]), {'lt': '<', 'le': '<=', 'eq': '==',
                                         'ne': '!='}[op], s(a[1]))
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in a) + ')'
    if op == 'ite':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if op == 'sub':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in a[:2]) if \
            a[2] is NONE and not (a[0] is NONE and a[1] is NONE) else (
            ':' if a[2] is NONE else '%s:%s:%s' % tuple(
                '' if x is NONE else s(x) for x in a))
    if op in ('list', 'tuple'):
        return ('[%s]' if op == 'list' else '(%s)') % ', '.join(map(s, a))
    if op == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (s(p.a[0]), s(p.a[1])) for p in a)
    if op == 'call':
        kw = ['%s=%s' % (p.a[0], s(p.a[1])) for p in a[2].a]
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1].a] + kw))
    if op == 'prop':
        return '%s.%s()' % (s(a[0]), a[1])
    if op == 'map':
        return '[%s for i%d < %s%s]' % (s(a[2]), a[0], s(a[1]),
            '' if a[3] is TRUE else ' if ' + s(a[3]))
    if op == 'bv':
        return 'i%d' % a[0]
    if op == 'meth':
        return '.' + a[0]
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))
