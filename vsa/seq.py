"""
Smart constructors for indexing, loops and containers.
"""
from .terms import *
from . import terms as _t


def isfield(k):
    """Is k surely a field name (a string)?"""
    if k.op == 'const':
        return k.a[0] == 'str'
    if k.op == 'sub' and k.a[0].op in ('fields', 'keys') and \
            kind(k.a[1]) == 'int':
        return k.a[0].op == 'fields' or True
    return kind(k) == 'str'


def arr(x):
    """np.array() and friends."""
    if x.op == 'ite':
        return ite(x.a[0], arr(x.a[1]), arr(x.a[2]))
    k = kind(x)
    if x.op == 'arr':
        return x
    if x.op in ('list', 'tuple', 'lcat', 'map', 'rep') or k in ('list',
                                                               'tuple'):
        return mk('arr', x)
    return x


def unarr(x):
    return x.a[0] if x.op == 'arr' else x


INTCAST = frozenset(['int', 'numpy.int64', 'numpy.int32', 'numpy.intp',
                     'numpy.int_', 'numpy.int', 'numpy.uint64',
                     'numpy.integer'])


def isint(t):
    return kind(t) == 'int'


def choose(base, idx):
    """The items of a literal container by a key that is not known."""
    if idx.op == 'call' and idx.a[0].a[0] == 'int' and len(idx.a[1].a) == 1 and \
            kind(idx.a[1].a[0]) == 'bool':
        idx = idx.a[1].a[0]
    if base.op != 'dict':
        if kind(idx) == 'bool' and len(base.a) == 2 and not any(
                x.op in ('starred', 'splice') for x in base.a):
            return ite(idx, base.a[1], base.a[0])
        return None
    ps = [p.a for p in base.a]
    if not 1 < len(ps) <= 8 or not all(k.op == 'const' for k, v in ps):
        return None
    if kind(idx) == 'bool':
        d = dict((k, v) for k, v in ps)
        if set(d) == set((TRUE, FALSE)):
            return ite(idx, d[TRUE], d[FALSE])
        return None
    ps.sort(key=lambda p: (p[0].a[0], repr(p[0].a[1])))
    r = ps[-1][1]
    for k, v in ps[-2::-1]:
        r = ite(eq(idx, k), v, r)
    return r


def sub(base, idx):
    if base.op == 'ite' or idx.op == 'ite':
        if leaves(base) * leaves(idx) > LIFT:
            return mk('sub', base, idx)
        return lift(sub, [base, idx])
    if base.op == 'cond':
        return base
    op = base.op
    # idx normalisation
    if idx.op == 'tuple':
        items = list(idx.a)
        while items and (items[-1] is FULL or
                         items[-1] is ELL and ELL not in items[:-1]):
            items.pop()
        items = [_idx(x) for x in items]
        if not items:
            return base
        if len(items) == 1:
            return sub(base, items[0])
        idx = mk('tuple', *items)
    else:
        idx = _idx(idx)
    if idx is FULL or idx is ELL:
        return base
    if op == 'arr':
        b = base.a[0]
        if idx.op == 'const' or isint(idx):
            r = sub(b, idx)
            if r.op != 'sub':
                return r
            return r
        if idx.op == 'slice' and b.op == 'list':
            r = sub(b, idx)
            return arr(r)
        return mk('sub', base, idx)
    n = num(idx)
    if op in ('list', 'tuple', 'dict') and idx.op != 'const':
        r = choose(base, idx)
        if r is not None:
            return r
    if op in ('list', 'tuple'):
        if idx.op == 'const' and idx.a[0] in ('int', 'bool'):
            i = int(idx.a[1])
            if -len(base.a) <= i < len(base.a):
                return base.a[i]
            if not any(x.op in ('starred', 'splice') for x in base.a):
                return mk('missing', 'item %d of %d' % (i, len(base.a)))
            return mk('sub', base, idx)
        if idx.op == 'slice' and all(x.op == 'const' for x in idx.a):
            s = slice(*[cval(x) for x in idx.a])
            return mk(op, *base.a[s])
        return mk('sub', base, idx)
    if op == 'const' and base.a[0] == 'str':
        try:
            if idx.op == 'const':
                return const(base.a[1][idx.a[1]])
            if idx.op == 'slice':
                return const(base.a[1][slice(*[cval(x) for x in idx.a])])
        except Exception:
            pass
        return mk('sub', base, idx)
    if op == 'str' and idx.op == 'slice' and num(idx.a[0]) is not None and \
            idx.a[1] is NONE and idx.a[2] is NONE:
        # drop a known prefix
        k = int(num(idx.a[0]))
        p = base.a[0]
        if p.op == 'const' and 0 <= k <= len(p.a[1]):
            return strcat(const(p.a[1][k:]), *base.a[1:])
    if kind(base) == 'dict' or op in ('dict', 'dmap', 'dupd', 'props'):
        r = dget(base, idx)
        if r is not None:
            return r
        if op == 'dupd' and eq(base.a[1], idx) is FALSE:
            return sub(base.a[0], idx)
        return mk('sub', base, idx)
    if op == 'map':
        h, ln, v, c = base.a
        if c is TRUE:
            if isint(idx) or idx.op == 'ix' or (idx.op in ('add', 'sub', 'lv')
                                                 and not isfield(idx)):
                i = idx
                if n is not None and n < 0:
                    i = add(ln, idx)
                return subst(v, {mk('bv', h): i})
    if op == 'lcat' and n is not None and n >= 0 and n.denominator == 1:
        i = int(n)
        first = base.a[0]
        if first.op in ('list', 'tuple'):
            if i < len(first.a):
                return first.a[i]
            return sub(seqcat(*base.a[1:]), const(i - len(first.a)))
    if op == 'lcat' and n is not None and n == -1:
        last = base.a[-1]
        if last.op in ('list', 'tuple'):
            return last.a[-1]
    if op in ('upd',):
        b, k, v = base.a
        if k is idx:
            return v
        e = None
        if k.op == 'const' and idx.op == 'const' and \
                k.a[0] == idx.a[0] and (k.a[0] == 'str' or
                                        num(k) >= 0 and num(idx) >= 0):
            return sub(b, idx)
        if isfield(idx) and not isfield(k) and k.op == 'tuple':
            pass
    if op == 'shape':
        if n == 0:
            return length(base.a[0])
        s = shape_item(base.a[0], int(n)) if n is not None and \
            n.denominator == 1 else None
        if s is not None:
            return s
    # index from the end
    if isint(idx) and idx.op == 'add':
        l = length(base)
        d = minus(idx, l)
        nd = num(d)
        if nd is not None and nd < 0:
            return sub(base, numc(nd))
    # element of a slice
    if op == 'sub' and base.a[1].op == 'slice' and base.a[1].a[2] is NONE:
        lo, hi = base.a[1].a[0], base.a[1].a[1]
        if isint(idx) and (n is None or n >= 0):
            lon = num(lo) if lo is not NONE else 0
            if lo is NONE or lon is not None and lon >= 0:
                return sub(base.a[0], idx if lo is NONE else add(idx, lo))
        if idx.op == 'slice' and lo is NONE and False:
            pass
    # fields before rows
    if op == 'sub' and isfield(idx) and not isfield(base.a[1]) and \
            base.a[0].op not in ('list', 'tuple', 'lcat') and \
            kind(base.a[0]) not in ('list', 'tuple'):
        return sub(sub(base.a[0], idx), base.a[1])
    # x[mask][i] etc. stay as they are
    return mk('sub', base, idx)


def more_axes(m):
    """A condition that has a new axis put in, so more than one."""
    if m.op in ('lt', 'le', 'eq', 'ne', 'and', 'or', 'not', 'add', 'mul',
                'pow', 'arr'):
        return any(more_axes(y) for y in m.a)
    return m.op == 'sub' and m.a[1].op == 'tuple' and NONE in m.a[1].a


def _idx(x):
    if x.op == 'sub' and x.a[1] is ZERO and x.a[0].op == 'call' and \
            x.a[0].a[0].op == 'glob' and x.a[0].a[0].a[0] == 'numpy.nonzero' \
            and not more_axes(x.a[0].a[1].a[0]):
        return unarr(x.a[0].a[1].a[0])
    if x.op == 'arr' and x.a[0].op in ('map',):
        return x.a[0]
    if x.op == 'glob' and x.a[0] == 'numpy.newaxis':
        return NONE
    if x.op == 'slice' and x.a[0] is ZERO and x.a[2] is NONE:
        return mk('slice', NONE, x.a[1], NONE)
    return x


def shape_item(x, i):
    if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in (
            'numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full'):
        s = x.a[1].a[0]
        if s.op == 'tuple' and -len(s.a) <= i < len(s.a):
            return s.a[i]
        if s.op == 'lcat' and i == -1 and s.a[-1].op == 'tuple':
            return s.a[-1].a[-1]
    return None


def shape(x):
    if x.op == 'ite':
        return ite(x.a[0], shape(x.a[1]), shape(x.a[2]))
    if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] in (
            'numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full'):
        s = x.a[1].a[0]
        if kind(s) == 'tuple' or s.op == 'lcat':
            return s
        if kind(s) == 'int':
            return mk('tuple', s)
    if x.op in ('upd', 'like'):
        return shape(x.a[0])
    if x.op == 'lupd':
        return shape(x.a[1])
    if x.op == 'param' and x.a[1] in ('arr1', 'arr2', 'arr3'):
        nd = int(x.a[1][-1])
        return mk('tuple', length(x),
                  *[mk('sub', mk('shape', x), const(i))
                    for i in range(1, nd)])
    if x.op in ('lt', 'le', 'eq', 'ne', 'add', 'mul', 'not'):
        ars = [y for y in x.a if isinstance(y, T) and
               (kind(y) in ARRAY_KINDS or y.op in ('call', 'upd', 'prop'))]
        rest = [y for y in x.a if y not in ars]
        if len(ars) == 1 and all(num(y) is not None or y.op == 'param' and
                y.a[1] in ('int', 'float') for y in rest):
            return shape(ars[0])
        if len(ars) > 1 and len(set(id(shape(y)) for y in ars)) == 1:
            return shape(ars[0])
    if x.op == 'and' or x.op == 'or':
        ss = [shape(y) for y in x.a]
        if len(set(id(s) for s in ss)) == 1:
            return ss[0]
    return mk('shape', x)


def mkmap(h, n, v, c):
    if n is ZERO or c is FALSE:
        return mk('list')
    nn = num(n)
    bv = mk('bv', h)
    # shift: [v(i) for i<n if i != 0] -> [v(i+1) for i<n-1]
    nz = ne(bv, ZERO)
    if c is nz or c.op == 'and' and nz in c.a:
        rest = TRUE if c is nz else and_(*[x for x in c.a if x is not nz])
        m = {bv: add(bv, ONE)}
        return mkmap(h, add(n, const(-1)), subst(v, m), subst(rest, m))
    if v.op == 'sub' and v.a[1] is bv and ('bv', h) not in v.a[0].fl and \
            c is TRUE and length(v.a[0]) is n and v.a[0].op != 'keys':
        return v.a[0]           # [x for x in X]
    # conditions independent of the element
    if c is not TRUE and ('bv', h) not in c.fl:
        return ite(c, mkmap(h, n, v, TRUE), mk('list'))
    if v.op == 'ite' and ('bv', h) not in v.a[0].fl and c is TRUE:
        return ite(v.a[0], mkmap(h, n, v.a[1], c), mkmap(h, n, v.a[2], c))
    if nn is not None and c is TRUE and nn <= 8:
        return mk('list', *[subst(v, {bv: const(i)}) for i in range(int(nn))])
    return mk('map', h, n, v, c)


def mkdmap(h, n, k, v, c):
    if n is ZERO or c is FALSE:
        return mkdict([])
    bv = mk('bv', h)
    if c is not TRUE and ('bv', h) not in c.fl:
        return ite(c, mkdmap(h, n, k, v, TRUE), mkdict([]))
    if c is TRUE and k.op == 'sub' and k.a[0].op == 'keys' and \
            k.a[1] is bv and v.op == 'sub' and v.a[0] is k.a[0].a[0] and \
            v.a[1] is k and n is length(k.a[0].a[0]):
        return v.a[0]           # a copy of a dictionary
    return mk('dmap', h, n, k, v, c)


def dupdate(d, e):
    """dict d updated by dict e."""
    if e.op == 'dict':
        for p in e.a:
            d = dset(d, p.a[0], p.a[1])
        return d
    if d.op == 'dict' and not d.a:
        return e
    if e.op == 'dupd':
        return dset(dupdate(d, e.a[0]), e.a[1], e.a[2])
    if e.op == 'ite':
        return ite(e.a[0], dupdate(d, e.a[1]), dupdate(d, e.a[2]))
    return mk('dupdate', d, e)


def inn(x, s):
    """x in s"""
    if x.op == 'ite' or s.op == 'ite':
        if leaves(x) * leaves(s) > LIFT:
            return mk('in', x, s)
        return lift(inn, [x, s])
    s0 = s
    while s.op in ('arr',) or s.op == 'call' and s.a[0].op == 'glob' and \
            s.a[0].a[0] in ('set', 'list', 'tuple', 'frozenset',
                            'numpy.unique', 'sorted', 'numpy.sort') \
            and len(s.a[1].a) == 1:
        s = s.a[0] if s.op == 'arr' else s.a[1].a[0]
    if s.op in ('list', 'tuple', 'set') and all(
            y.op == 'const' for y in s.a) or \
            s.op in ('list', 'tuple', 'set') and len(s.a) <= 6:
        return or_(*[eq(x, y) for y in s.a])
    if s.op == 'dict':
        return or_(*[eq(x, p.a[0]) for p in s.a])
    if s.op == 'and':
        return and_(*[inn(x, y) for y in s.a])
    if s.op == 'or':
        return or_(*[inn(x, y) for y in s.a])
    if s.op == 'setminus':
        return and_(inn(x, s.a[0]), not_(inn(x, s.a[1])))
    if s.op == 'keys':
        s = s.a[0]
    if s.op == 'dupd':
        return or_(eq(x, s.a[1]), inn(x, s.a[0]))
    if s.op == 'lcat':
        return or_(*[inn(x, y) for y in s.a])
    if s.op in ('map', 'smap') and kind(s) in ('list', 'set'):
        h, n, v, c = s.a
        bv = mk('bv', h)
        if v.op == 'sub' and v.a[1] is bv:
            return and_(inn(x, v.a[0]), subst(c, {v: x})) \
                if ('bv', h) not in subst(c, {v: x}).fl else mk('in', x, s)
    if s.op == 'fields' and x.op == 'const' and False:
        return None
    # an element of s itself
    if x.op == 'sub' and (x.a[0] is s or x.a[0].op == 'keys' and
                          x.a[0].a[0] is s) and kind(x.a[1]) == 'int':
        return TRUE
    if s.op == 'param' and s.a[1] == 'str' or kind(s) == 'str':
        return mk('contains', x, s)
    return mk('in', x, s)


def strfields(x):
    """Names of fields/columns of a table-like."""
    while True:
        if x.op == 'sub' and not isfield(x.a[1]):
            x = x.a[0]
        elif x.op == 'call' and x.a[0].op == 'meth' and \
                x.a[0].a[0] in ('read_where',):
            x = x.a[1].a[0]
        elif x.op == 'upd':
            x = x.a[0]
        else:
            return mk('fields', x)


def keys(d):
    if d.op == 'dict':
        return mk('list', *[p.a[0] for p in d.a])
    if d.op == 'dmap':
        h, n, k, v, c = d.a
        return mkmap(h, n, k, c)
    if d.op == 'schema' or d.op == 'props':
        return mk('keys', mk('props', d.a[0]))
    return mk('keys', d)


builder('sub')(sub)
builder('map')(mkmap)
builder('dmap')(mkdmap)
builder('in')(inn)
builder('arr')(arr)
builder('shape')(shape)
builder('dupdate')(dupdate)
builder('fields')(strfields)


def length2(t):
    return length(t)


WHOLE = frozenset(['int', 'bool', 'numpy.int64', 'numpy.int_', 'numpy.intp',
                   'numpy.bool_', 'numpy.bool', 'numpy.int32',
                   'numpy.uint64'])


def arms(t):
    if t.op == 'ite':
        return arms(t.a[1]) + arms(t.a[2])
    return [t]


def made_as(t):
    """The type given for the elements of a new array."""
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in (
            'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full',
            'numpy.empty_like', 'numpy.zeros_like', 'numpy.full_like',
            'numpy.ones_like'):
        for k in t.a[2].a:
            if isinstance(k, T) and k.a[0] == 'dtype':
                return k.a[1]
    return None


def lupd(h, base, n, idx, v, c):
    """for i<n: if c: base[idx] = v"""
    bv = mk('bv', h)
    if c is TRUE and idx is bv and length(base) is n:
        return arr(mkmap(h, n, v, TRUE))
    if c is FALSE or n is ZERO:
        return base
    # the unfilled rest of a zeros array is 0: zeros + where(c, v, 0)
    return mk('lupd', h, base, n, idx, v, c)


builder('lupd')(lupd)


def lsum(h, n, e):
    if e is ZERO or n is ZERO:
        return ZERO
    if ('bv', h) not in e.fl:
        return mul(n, e)
    return mk('lsum', h, n, e)


builder('lsum')(lsum)


def upd(base, idx, v):
    idx = _idx(idx) if idx.op != 'tuple' else mk('tuple', *[_idx(x)
                                                          for x in idx.a])
    if idx.op == 'tuple':
        items = list(idx.a)
        while len(items) > 1 and (items[-1] is FULL or items[-1] is ELL):
            items.pop()
        if len(items) == 1:
            idx = items[0]
    if base.op == 'upd':
        b, k, w = base.a
        if k is idx:
            return upd(b, idx, v)
        # independent constant keys: in canonical order
        if k.op == 'const' and idx.op == 'const' and k.a[0] == idx.a[0] and \
                idx.d < k.d and (k.a[0] == 'str' or
                                 num(k) >= 0 and num(idx) >= 0):
            return mk('upd', upd(b, idx, v), k, w)
        if isfield(k) and isfield(idx) and eq(k, idx) is FALSE and \
                idx.d < k.d:
            return mk('upd', upd(b, idx, v), k, w)
        # complementary masks in any order
        if idx is not_(k) and idx.d < k.d:
            return mk('upd', upd(b, idx, v), k, w)
        if k.op == 'tuple' and idx.op == 'tuple' and len(k.a) == len(idx.a) \
                and idx.d < k.d and any(
                    num(p) is not None and num(q) is not None and
                    num(p) >= 0 and num(q) >= 0 and num(p) != num(q)
                    for p, q in zip(k.a, idx.a)):
            return mk('upd', upd(b, idx, v), k, w)
    if (base.op in ('list', 'arr') or base.op == 'list') and \
            idx.op == 'const' and idx.a[0] == 'int':
        l = unarr(base)
        i = idx.a[1]
        if l.op == 'list' and -len(l.a) <= i < len(l.a):
            items = list(l.a)
            items[i] = v
            r = mk('list', *items)
            return arr(r) if base.op == 'arr' else r
    if idx is FULL or idx is ELL:
        return mk('upd', mk('like', base), FULL, v)
    # whatever was in the array before a complete set of masks is immaterial
    return mk('upd', base, idx, v)


builder('upd')(upd)
