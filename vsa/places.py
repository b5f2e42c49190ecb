"""
More forms of two parts of a value that are not the same (see judge).
"""
from .terms import *
from . import judge as J


def parts_of(t):
    return t.a if t.op == 'tuple' else (t,)


def partial(i):
    """Leaves something out along one axis, nothing else done."""
    return i.op == 'tuple' and sum(z is not FULL for z in i.a) == 1 and \
        any(J.cut(z) for z in i.a)


def column(i):
    """One of the columns, rows as they are."""
    return i.op == 'tuple' and len(i.a) > 1 and i.a[0] is FULL and \
        num(i.a[-1]) is not None and all(z is FULL for z in i.a[:-1])


def sliced(x, y, px, py, root):
    for p, q in ((x, y), (y, x)):
        s = J.peel(p, q)
        if s and any(partial(i) for i in s):
            return 'a part of it'
        if s and len(s) == 1 and column(s[0]) and \
                J.reach(root, x, ('len', 'shape', 'numpy.zeros_like',
                                  'numpy.ones_like', 'numpy.size')) and \
                (px is None or px.op != 'sub'):
            return 'one column stands for all'
        if p.op == 'sub' and q.op != 'sub' and J.selects(p.a[1]) and \
                J.glob(q, 'numpy.abs', 'numpy.negative', 'abs') and \
                q.a[1].a[0] is p.a[0] and p.a[1].op in ('lt', 'le'):
            return 'another number of items'
    return None


# ------------------------------------------------------------ assignments

def inf(v):
    return v.op == 'glob' and v.a[0] in ('numpy.inf', 'math.inf') or \
        v.op == 'const' and v.a[0] == 'float' and v.a[1] in ('inf',)


def put(v):
    """The number assigned, None if not one."""
    if inf(v):
        return float('inf')
    n = num(v)
    return None if n is None else float(n)


def branch(m, q, z):
    """Whether the mask on q takes the number z in, None if not on q."""
    s = J.signs(m)
    if s is None or len(s[0]) != 1:
        return None
    a, k = s[0][0]
    if a is not q or k != 1:
        return None
    return J.holds(s, z)


def bounds(q):
    """The least number q can be."""
    if q.op == 'pow' and q.a[0] is not q and num(q.a[1]) is not None:
        if num(q.a[1]) * 2 == 1 or num(q.a[1]) % 2 == 0:
            return 0
    if J.glob(q, 'numpy.sqrt', 'numpy.abs', 'abs', 'numpy.linalg.norm') or \
            J.nonneg(q):
        return 0
    return None


def levels(m, q):
    s = J.signs(m)
    return [] if s is None else [s[1] - 1, s[1], s[1] + 1, s[1] / 2,
                                 s[1] * 2]


def assigned(t, base, z):
    """The value at a place where base is the number z."""
    if t is base:
        return float(z)
    if t.op == 'upd' and len(t.a) == 3:
        b = branch(t.a[1], base, z)
        v = put(t.a[2])
        if b is None or v is None:
            return None
        return v if b else assigned(t.a[0], base, z)
    return None


def under(t):
    ms = []
    while t.op == 'upd' and len(t.a) == 3:
        ms.append(t.a[1])
        t = t.a[0]
    return t, ms


def updates(x, y, root):
    if x.op != 'upd' and y.op != 'upd':
        return None
    bx, mx = under(x)
    by, my = under(y)
    if bx is not by or bx.op not in ('call', 'pow', 'param', 'sub', 'add',
                                     'mul'):
        return None
    lo = bounds(bx)
    zs = set(z for m in mx + my for z in levels(m, bx))
    for z in sorted(zs):
        if lo is not None and z < lo:
            continue
        p, q = assigned(x, bx, z), assigned(y, bx, z)
        if p is None or q is None:
            break
        if p != q:
            return 'another value is set'
    # one more assignment, at chosen places, of what the rest cannot be
    for p, q in ((x, y), (y, x)):
        if p.op == 'upd' and p.a[0] is q and inf(p.a[2]):
            i = p.a[1]
            if i.op == 'tuple' and len(i.a) == 2 and i.a[0].op in (
                    'lt', 'le') and i.a[1].op == 'sub' and \
                    i.a[1].a[1] is i.a[0]:
                return 'more is set'
    return None


# ------------------------------------------------------------ conversions

def whole(x, y):
    for p, q in ((x, y), (y, x)):
        if J.glob(p, 'int', 'numpy.floor', 'numpy.ceil', 'numpy.trunc') and \
                p.a[1].a[0] is q and q.op == 'param' and \
                kind(q) in ('float', 'num', None):
            return 'made a whole number'
        if p.op == 'toint' and p.a[0] is q and q.op == 'param' and \
                kind(q) in ('float', 'num', None):
            return 'made a whole number'
    return None


def ends(x, y):
    """The first n, and the last n."""
    if x.op == y.op == 'slice':
        for p, q in ((x, y), (y, x)):
            if p.a[0] is NONE and p.a[1] is not NONE and q.a[1] is NONE and \
                    q.a[0] is not NONE and p.a[2] is NONE and \
                    q.a[2] is NONE and (neg(q.a[0]) is p.a[1] or
                                        q.a[0] is p.a[1]):
                return 'the other end'
    return None


# ------------------------------------------------------------- counts

def counted(x, y):
    """All the items, and those with some property."""
    for p, q in ((x, y), (y, x)):
        if q.op == 'len' and J.glob(p, 'numpy.count_nonzero', 'numpy.sum',
                                    'sum') and len(p.a[1].a) == 1:
            c = p.a[1].a[0]
            if c.op == 'not':
                c = c.a[0]
            if J.glob(c, 'numpy.isnan', 'numpy.isfinite', 'numpy.isinf') or \
                    c.op in ('lt', 'le', 'eq', 'ne'):
                return 'not all of them are counted'
    return None


def plain(t):
    """Made of how many there have been, of nothing else."""
    if t.op in ('ix', 'bv') or num(t) is not None:
        return True
    if t.op == 'len':
        return t.a[0].op == 'acc'
    return t.op in ('add', 'mul') and all(plain(y) for y in t.a)


def named(x, y):
    """A running count, and a number read from a name."""
    for p, q in ((x, y), (y, x)):
        if plain(p) and J.glob(q, 'int') and q.a[1].a[0].op in (
                'sub', 'call') and J.inside_op(q, ('bv', 'ix')) and \
                kind(q.a[1].a[0]) != 'arr':
            return 'a running count, and what is read'
        if plain(p) and J.inside_op(p, ('ix', 'bv')) and q.op == 'sub' \
                and q.a[0].op == 'call' and q.a[0].a[0].op == 'glob' and \
                q.a[0].a[0].a[0] == 'sorted' and q.a[1].op != 'slice':
            return 'a running count, and one of some sorted things'
    return None


def dimensions(x, y, px):
    """len of the shape, and of the thing or its first item."""
    if px is None or px.op != 'len':
        return None
    for p, q in ((x, y), (y, x)):
        if p.op == 'shape' and q is p.a[0]:
            return 'the number of dimensions, and of items'
    return None


def unwrap(t):
    while t.op == 'toint' or J.glob(t, 'int', 'float'):
        t = t.a[0] if t.op == 'toint' else t.a[1].a[0]
    return t


def valued(x, y):
    """A number of items, and a value of the data."""
    for p, q in ((x, y), (y, x)):
        v = unwrap(q)
        if p.op == 'len' and v.op == 'call' and v.a[0].op == 'meth' and \
                v.a[0].a[0] in ('time', 'trajid') and p.a[0].op in (
                    'sub', 'param', 'prop', 'call'):
            return 'a number of items, and a value'
    return None


def modulo(x, y):
    for p, q in ((x, y), (y, x)):
        if p.op == 'mod' and p.a[0] is q and num(p.a[1]) is not None and (
                q.op == 'param' or q.op == 'call' and
                q.a[0].op == 'meth' and q.a[0].a[0] in ('trajid', 'time')):
            return 'only the remainder'
    return None


def textual(x, y):
    """Numbers in the order of their texts, and in their own."""
    for p, q in ((x, y), (y, x)):
        if J.glob(q, 'sorted', 'numpy.sort') and p.op == 'map' and \
                J.glob(p.a[2], 'int', 'float'):
            s = p.a[2].a[1].a[0]
            if s.op == 'sub' and J.glob(s.a[0], 'sorted', 'numpy.sort') and \
                    s.a[1].op == 'bv' and not s.a[0].a[2].a and \
                    not q.a[2].a:
                b = s.a[0].a[1].a[0]
                c = q.a[1].a[0]
                if b.op == c.op == 'map' and J.glob(c.a[2], 'int', 'float') \
                        and not J.glob(b.a[2], 'int', 'float'):
                    return 'in the order of their texts'
    return None


EXT = {'numpy.minimum': ('numpy.min', 'min'),
       'numpy.maximum': ('numpy.max', 'max')}


def extreme(x, y):
    """Of one row, and of all."""
    for p, q in ((x, y), (y, x)):
        if p.op == 'call' and p.a[0].op == 'glob' and p.a[0].a[0] in EXT and \
                J.glob(q, *EXT[p.a[0].a[0]]) and len(p.a[1].a) == 2:
            s = q.a[1].a[0]
            if J.glob(s, 'numpy.vstack') and s.a[1].a[0].op in (
                    'tuple', 'list') and len(s.a[1].a[0].a) == 2:
                for i in (0, 1):
                    u, v = p.a[1].a[i], p.a[1].a[1 - i]
                    m, n = s.a[1].a[0].a
                    if u is m or u is n:
                        o = n if u is m else m
                        if v.op == 'sub' and v.a[0] is o and \
                                num(v.a[1]) is not None:
                            return 'one item stands for all'
    return None


def forgotten(x, y):
    """A value started anew for each, and one added to."""
    for p, q in ((x, y), (y, x)):
        if p.op == 'dupdate' and p.a[0].op == 'acc' and \
                not J.accs(p.a[1]) and q.op == 'fold' and \
                len(q.a[2].a) == 1 and q.a[2].a[0] is p.a[0]:
            me = mk('acc', q.a[0], 0)
            if reads(q.a[3].a[0], me):
                return 'what came before does not come into it'
    return None


def reads(t, me):
    """Is an item of me part of what is put into it?"""
    if t.op == 'ite':
        return reads(t.a[1], me) or reads(t.a[2], me)
    if t.op == 'dupd':
        b = t.a[0]
        while b.op == 'dupd':
            b = b.a[0]
        v = t.a[2]
        return b is me and J.inside(v, me) or reads(t.a[0], me)
    return False


def alone(x, y, px, py, root):
    """What makes a difference whatever the other places."""
    if px is None or px.op != 'len' or py.op != 'len':
        return None
    for p, q, u in ((x, y, px), (y, x, py)):
        if J.glob(p, 'numpy.unique', 'set') and p.a[1].a and not p.a[2].a:
            b = p.a[1].a[0]
            if b is q or b.op == 'sub' and b.a[0] is q and \
                    b.a[1].op == 'const' and b.a[1].a[0] == 'str':
                if u is px and masks(root, px):
                    return 'another number of items'
    return None


def masks(root, n):
    """Is a list of n items used to select?"""
    todo, seen = [root], set()
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t.op == 'sub':
            i = J.first(t.a[1])
            if i is not None and i.op == 'map' and i.a[1] is n and \
                    kind(i.a[2]) == 'bool':
                return True
        todo.extend(y for y in t.a if isinstance(y, T))
    return False


def zero_test(t):
    """X of a test X != 0 (or its negation), and the sign of the test."""
    n = False
    while t.op == 'not':
        t, n = t.a[0], not n
    if t.op in ('eq', 'ne'):
        for p, q in (t.a, t.a[::-1]):
            if num(p) == 0:
                return q, (t.op == 'ne') != n
    return None, None


def cancel(x, y):
    """Whether any is not zero, and whether the sum is not."""
    for p, q in ((x, y), (y, x)):
        s, v = zero_test(p)
        if s is None or not J.glob(s, 'numpy.sum', 'sum'):
            continue
        m = q.a[0] if q.op == 'not' else q
        if J.glob(m, 'numpy.any', 'any', 'numpy.all', 'all'):
            z, w = zero_test(m.a[1].a[0])
            if z is not None and z is s.a[1].a[0] and m.a[2] is s.a[2] and \
                    J.glob(z, 'numpy.diff') or z is not None and \
                    z is s.a[1].a[0] and z.op in ('add', 'sub', 'param'):
                return 'items may cancel in a sum'
    return None


def running(x, y):
    """The largest so far, and the sum so far."""
    for p, q in ((x, y), (y, x)):
        if (p.op == 'max' or J.glob(p, 'max', 'numpy.maximum')) and \
                q.op == 'add':
            a = p.a[1].a if p.op == 'call' else p.a
            me = [z for z in a if z.op == 'acc']
            if len(a) == 2 and len(me) == 1 and me[0] in q.a:
                o = [z for z in a if z is not me[0]]
                d = o and add(o[0], neg(add(q, neg(me[0]))))
                if o and any(not J.inside_op(z, ('ix', 'acc'))
                             for z in (o[0], d)):
                    return 'the largest, and the sum'
    return None


def bottom(t):
    """The mapping which has been added to and taken from."""
    while True:
        if t.op in ('dupd', 'dminus', 'setlv'):
            t = t.a[0]
        elif t.op == 'ite':
            t = t.a[1]
        elif t.op == 'fold':
            if len(t.a[2].a) != 1:
                return None
            t = t.a[2].a[0]
        else:
            return t


def shrinks(root, m):
    """Are items taken out of this mapping, in a loop inside its own?"""
    todo, seen = [root], set()
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        todo.extend(z for z in t.a if isinstance(z, T))
        if t.op in ('dminus', 'deleted') and bottom(t.a[0]) is m:
            return True
        if t.op == 'fold':
            for a, b in zip(t.a[2].a, t.a[3].a):
                if b.op in ('dminus', 'deleted') and bottom(a) is m and \
                        b.a[0].op == 'acc' and b.a[0].a[0] == t.a[0]:
                    return True
    return False


def taken(x, y, root):
    """How many there are of what is also taken out, and a sum so far."""
    for p, q in ((x, y), (y, x)):
        if p.op == 'len' and q.op == 'add' and \
                any(z.op == 'acc' for z in q.a):
            m = bottom(p.a[0])
            if m is None or m.op != 'acc':
                continue
            if shrinks(root, m):
                return 'a running total, and how many are left'
    return None


def first_of(x, y):
    """The least of all, and the first."""
    for p, q in ((x, y), (y, x)):
        if J.glob(q, 'numpy.min', 'numpy.max', 'min', 'max') and \
                len(q.a[1].a) == 1 and not q.a[2].a:
            m = q.a[1].a[0]
            if m.op in ('map', 'fold') and m.a[1].op == 'len' and \
                    p.op == 'sub':
                s = m.a[1].a[0]
                while s.op == 'sub' and not J.inside_op(s.a[1], ('lt', 'le',
                                                         'eq', 'ne')):
                    s = s.a[0]
                i = p.a[1]
                if i.op == 'sub' and i.a[0] is m.a[1].a[0] and \
                        num(i.a[1]) is not None:
                    return 'one item stands for all'
    return None


def shifted(t):
    """{(factors, base, slice)} of a sum of slices of one array."""
    out = []
    for z in (t.a if t.op == 'add' else (t,)):
        fs = z.a if z.op == 'mul' else (z,)
        s = [f for f in fs if f.op == 'sub']
        if len(s) != 1 or J.first(s[0].a[1]) is None or \
                J.first(s[0].a[1]).op != 'slice':
            return None
        sl = J.first(s[0].a[1])
        if any(v is not NONE and num(v) is None for v in sl.a):
            return None
        out.append((frozenset(f for f in fs if f is not s[0]), s[0].a[0],
                    sl))
    return out


def shifts(x, y):
    """Differences of neighbours, taken at other places."""
    if x.op != 'add' or y.op != 'add':
        return None
    p, q = shifted(x), shifted(y)
    if not p or not q or len(set(z[1] for z in p + q)) != 1:
        return None
    if set(p) != set(q) and len(set(p)) == len(p) and \
            len(set(q)) == len(q):
        ends = set((num(z[2].a[0]) or 0) - (num(z[2].a[1]) or 0)
                   for z in p + q)
        if len(ends) == 1:
            return 'differences at other places'
    return None


def columns(x, y, px, py):
    """Of the same array, all of an axis and a part of it."""
    if px is None or px.op != 'sub' or py.op != 'sub' or \
            px.a[0] is not py.a[0] or px.a[1] is not x or py.a[1] is not y:
        return None
    p, q = list(parts_of(x)), list(parts_of(y))
    if any(z is ELL for z in p + q):
        return None
    n = max(len(p), len(q))
    p, q = p + [FULL] * (n - len(p)), q + [FULL] * (n - len(q))
    d = [i for i in range(n) if p[i] is not q[i]]
    if len(d) == 1 and d[0] > 0:
        for u, v in ((p[d[0]], q[d[0]]), (q[d[0]], p[d[0]])):
            if v is FULL and u.op == 'slice' and all(
                    z is NONE or num(z) is not None for z in u.a) and (
                        J.cut(u) or num(u.a[1]) in (1, 2)):
                return 'not all columns'
    return None


def clipped(x, y):
    """An input, and the same with some of its values replaced."""
    for p, q in ((x, y), (y, x)):
        if J.glob(p, 'numpy.maximum', 'numpy.minimum', 'numpy.clip',
                  'numpy.abs', 'max', 'min') and q in p.a[1].a and \
                q.op in ('param', 'prop') and all(
                    z is q or num(z) is not None for z in p.a[1].a) and \
                (kind(q) in ARRAY_KINDS or q.op == 'prop'):
            return 'values are cut off'
    return None


def lasting(x, y):
    """The last time, and the first one with the number of points: not the
    same where a frame is missing."""
    for p, q in ((x, y), (y, x)):
        if q.op != 'sub' or num(q.a[1]) != -1 or p.op != 'add':
            continue
        f = [z for z in p.a if z.op == 'sub' and z.a[0] is q.a[0] and
             num(z.a[1]) == 0]
        r = [z for z in p.a if z not in f]
        if len(f) == 1 and r and all(
                num(z) is not None or z.op == 'len' for z in r) and any(
                z.op == 'len' for z in r):
            return 'the last one, and how many there are'
    return None


def reason(x, y, px, py, root):
    return sliced(x, y, px, py, root) or updates(x, y, root) or \
        whole(x, y) or (px is not None and px.op in ('sub', 'tuple') and
                        ends(x, y) or None) or counted(x, y) or \
        named(x, y) or dimensions(x, y, px) or valued(x, y) or \
        modulo(x, y) or textual(x, y) or extreme(x, y) or forgotten(x, y) or \
        cancel(x, y) or running(x, y) or first_of(x, y) or shifts(x, y) or \
        taken(x, y, root) or columns(x, y, px, py) or clipped(x, y) or \
        lasting(x, y)
