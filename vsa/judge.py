"""
One place of a value, written differently on the two sides, accounts for all
of the difference: can the two be the same?

Every rule names two forms that differ for some input whatever stands in the
open places; what is not of one of these forms is left undecided.
"""
from fractions import Fraction

from .terms import *
from . import witness
from .anti import disagree, explain, exchanged, inside

ORDERLESS = frozenset([
    'numpy.sum', 'sum', 'numpy.min', 'numpy.max', 'min', 'max', 'numpy.any',
    'numpy.all', 'any', 'all', 'numpy.unique', 'sorted', 'numpy.sort', 'set',
    'len', 'numpy.mean', 'numpy.median', 'numpy.std', 'numpy.count_nonzero',
    'numpy.isin', 'numpy.in1d'])
MONOTONE = frozenset(['numpy.argmin', 'numpy.argmax', 'numpy.argsort',
                      'numpy.min', 'numpy.max', 'min', 'max'])


def reach(root, x, stop):
    """Is x there other than as part of an argument of one of stop?"""
    todo, seen = [root], set()
    while todo:
        t = todo.pop()
        if t is x:
            return True
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in stop or \
                t.op in stop:
            continue
        todo.extend(y for y in t.a if isinstance(y, T))
    return False


def first(i):
    if i.op == 'tuple' and i.a:
        if all(x is FULL for x in i.a[1:]):
            return i.a[0]
        return None
    return i


def cut(i):
    """Some items, not all of them, whatever the length (from 3 on)."""
    if i is None or i.op != 'slice' or i is FULL:
        return False
    lo, hi, st = i.a
    if num(st) is not None and num(st) not in (1, -1):
        return True
    l, h = num(lo), num(hi)
    if (lo is NONE or l is not None) and (hi is NONE or h is not None):
        if l is not None and l > 0:
            return True
        if h is not None and h < 0:
            return True
    return False


def back(i):
    return i is not None and i.op == 'slice' and i.a[0] is NONE and \
        i.a[1] is NONE and num(i.a[2]) == -1


# --------------------------------------------------------- slices by ends

def end(x, base, n, default):
    """A bound as (from the end?, number) with the length as the unit."""
    if x is NONE:
        return default
    k = num(x)
    if k is not None:
        return (k < 0, k)
    return None


def slices(x, y):
    if x.op != 'slice' or y.op != 'slice':
        return None
    if num(x.a[2]) is None and x.a[2] is not NONE or \
            num(y.a[2]) is None and y.a[2] is not NONE:
        return None
    sx, sy = num(x.a[2]) or 1, num(y.a[2]) or 1
    if sx != sy:
        return 'another step of a slice'
    if sx != 1:
        return None
    for j in (0, 1):
        if j and x.a[0] is not y.a[0]:
            break
        p, q = x.a[j], y.a[j]
        if p is not NONE and q is not NONE and num(p) is None and \
                num(q) is None:
            d = num(add(p, neg(q)))
            if d is not None and d != 0:
                return 'another slice'
    ex = (end(x.a[0], None, 0, (False, 0)), end(x.a[1], None, 0, (True, 0)))
    ey = (end(y.a[0], None, 0, (False, 0)), end(y.a[1], None, 0, (True, 0)))
    if None in ex or None in ey:
        return None
    if ex != ey and all(ex[j] == ey[j] or ex[j][0] == ey[j][0]
                        for j in (0, 1)):
        return 'another slice'
    return None


def sizeof(t):
    return t.op in ('len', 'shape', 'ndim', 'count', 'whilen') or \
        t.op == 'sub' and t.a[0].op == 'shape'


def trims(x, y):
    """`t:-t` is empty where t is 0, `t:n-t` is not."""
    for p, q in ((x, y), (y, x)):
        if p.op == q.op == 'slice' and p.a[0] is q.a[0] and \
                p.a[2] is q.a[2]:
            h = neg(p.a[1]) if p.a[1] is not NONE else None
            if h is not None and h.op == 'param' and \
                    q.a[1].op == 'add' and p.a[1] in q.a[1].a and \
                    all(z is p.a[1] or sizeof(z) for z in q.a[1].a):
                return 'an end that is none where %s is 0' % h.a[0]
    return None


# ---------------------------------------------------------------- strings

AFFIX = frozenset(['endswith', 'startswith'])
STRIP = frozenset(['strip', 'lstrip', 'rstrip'])


def meth(t, names):
    if t.op == 'truth':
        t = t.a[0]
    if t.op == 'not':
        return meth(t.a[0], names)
    if t.op == 'call' and t.a[0].op == 'meth' and t.a[0].a[0] in names:
        return t
    return None


def strings(x, y):
    p, q = meth(x, AFFIX), meth(y, AFFIX)
    if p is not None and q is not None:
        s, t = p.a[1].a, q.a[1].a
        if s[0] is t[0] and len(s) == len(t) == 2 and s[1] is not t[1] and \
                s[1].op == t[1].op == 'const':
            return 'another %s' % (
                'ending' if p.a[0].a[0] == 'endswith' else 'beginning')
        if s[0] is t[0] and p.a[0].a[0] != q.a[0].a[0]:
            return 'the other end of a name'
    for p, q in ((x, y), (y, x)):
        m = meth(p, STRIP)
        if m is p and m is not None and len(m.a[1].a) == 2 and \
                q.op == 'sub' and q.a[0] is m.a[1].a[0] and \
                q.a[1].op == 'slice':
            return 'characters are stripped, not a prefix'
    return None


# ------------------------------------------------- conditions on a number

def signs(t):
    """A condition on one sum d as the signs of d - c it allows:
    (d, {c: ...}) -> (atoms, constant, set of '-', '0', '+')."""
    from . import terms as _t
    if t.op == 'not':
        r = signs(t.a[0])
        return r and (r[0], r[1], frozenset('-0+') - r[2])
    if t.op not in ('lt', 'le', 'eq', 'ne'):
        return None
    if any(kind(x) in ('str', 'list', 'tuple', 'dict', 'none', 'opt')
           or x.op == 'const' and num(x) is None for x in t.a):
        return None
    da, ca = _t._linear(add(t.a[0], neg(t.a[1])))
    if not da:
        return None
    s = {'lt': '-', 'le': '-0', 'eq': '0', 'ne': '-+'}[t.op]
    f = sorted(da.items(), key=lambda i: i[0].d)
    k = f[0][1]
    if k < 0:
        s = s.translate(str.maketrans('-+', '+-'))
    return (tuple((x, Fraction(c) / k) for x, c in f), -Fraction(ca) / k,
            frozenset(s))


def numbers(x, y):
    """Conditions on the same number that are not the same condition."""
    p, q = signs(x), signs(y)
    for u, v, w in ((p, q, y), (q, p, x)):
        if u is not None and v is None and (w is TRUE or w is FALSE):
            r = (u[0], u[1], frozenset('-0+' if w is TRUE else ''))
            if w is y:
                q = r
            else:
                p = r
            if len(u[0]) != 1 or u[0][0][0].op not in ('len', 'count',
                                                       'param'):
                return None
    if p is None or q is None or p[0] != q[0]:
        return None
    at = [a for a, c in p[0]]
    if any(a.op in ('ite', 'const') for a in at):
        return None
    loop = [a for a in at if a.op in ('ix', 'bv', 'acc')]
    if loop and any(a.op in ('len', 'count', 'rangelen') or sizeof(a)
                    for a in at):
        return None             # what is known of the range
    lo = min(p[1], q[1]) - 2
    if len(at) == 1 and p[0][0][1] == 1 and (
            sizeof(at[0]) or at[0].op in ('ix', 'bv')):
        lo = max(lo, 0)
    ps = set(range(int(lo), int(max(p[1], q[1])) + 3))
    ps = set(n for n in ps if n >= lo)
    if not any(sizeof(a) or a.op in ('ix', 'bv') for a in at):
        ps |= set([p[1], q[1]])
    for n in ps:
        if holds(p, n) != holds(q, n):
            return 'another condition on a number'
    return None


def holds(p, n):
    return ('-' if n < p[1] else '+' if n > p[1] else '0') in p[2]


def inside_op(t, ops):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.op in ops:
            return True
        if id(x) not in seen:
            seen.add(id(x))
            todo.extend(y for y in x.a if isinstance(y, T))
    return False


# ------------------------------------------------------------- presence

def presence(x, y):
    """Whether an argument is given, and whether it is not zero."""
    for p, q in ((x, y), (y, x)):
        n = p.op == 'not'
        c = p.a[0] if n else p
        if c.op == 'truth' and c.a[0].op == 'param':
            e = q.a[0] if q.op == 'not' else q
            if e.op == 'isnone' and e.a[0] is c.a[0] and \
                    (q.op == 'not') != n:
                return c.a[0]
    return None


def compared(root, p):
    """Is the argument compared with a number or counted with?"""
    todo, seen = [root], set()
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t.op in ('lt', 'le', 'add', 'mul') and p in t.a:
            return True
        todo.extend(y for y in t.a if isinstance(y, T))
    return False


# -------------------------------------------------------------- formulas

def formula(t, out):
    if t.op == 'not':
        formula(t.a[0], out)
    elif t.op in ('and', 'or'):
        for y in t.a:
            formula(y, out)
    elif t.op == 'ite' and kind(t) == 'bool':
        for y in t.a:
            formula(y, out)
    elif t is not TRUE and t is not FALSE:
        # of two that exclude each other, one
        n = not_(t) if t.op in ('lt', 'le') else t
        out[n if n.op in ('lt', 'le') and n.d < t.d else t] = 1


def value(t, v):
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == 'not':
        return not value(t.a[0], v)
    if t.op == 'and':
        return all(value(y, v) for y in t.a)
    if t.op == 'or':
        return any(value(y, v) for y in t.a)
    if t.op == 'ite' and kind(t) == 'bool':
        return value(t.a[1] if value(t.a[0], v) else t.a[2], v)
    return v[t] if t in v else not v[not_(t)]


def names(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in ('param', 'prop', 'ix', 'bv', 'acc', 'col', 'cfgget',
                    'cfgconv', 'lv', 'attr', 'unknown', 'opaque') or \
                x.op == 'call' or x.op == 'sub' or sizeof(x):
            out.add(x)
            continue
        todo.extend(y for y in x.a if isinstance(y, T))
    return out


def independent(atoms):
    """Conditions no two of which speak about more than one thing in common,
    and without cycles: each may be true or false whatever the others are."""
    group = {}

    def find(x):
        while group.setdefault(x, x) is not x:
            x = group[x]
        return x
    for t in atoms:
        ns = names(t)
        if not ns or t.op not in ('lt', 'le', 'col', 'truth', 'isnone',
                                  'eq', 'ne'):
            return False
        if len(ns) == 1 and t.op in ('lt', 'le', 'eq', 'ne'):
            # compared with a constant
            if any(sizeof(n) or n.op in ('ix', 'bv') for n in ns):
                return False
            ns = ns | set([None])
        rs = set(find(n) for n in ns)
        if len(rs) < len(ns):
            return False
        r = rs.pop()
        for q in rs:
            group[q] = r
    # one atom for each variable, or joined without a cycle
    return True


def formulas(x, y):
    if not (x.op in ('and', 'or', 'not') or y.op in ('and', 'or', 'not')):
        return None
    A, B = {}, {}
    formula(x, A)
    formula(y, B)
    if set(A) != set(B) or len(A) > 8 or len(A) < 2:
        return None
    at = sorted(A, key=lambda t: t.d)
    if not independent(at):
        return None
    for n in range(1 << len(at)):
        v = dict((t, bool(n >> i & 1)) for i, t in enumerate(at))
        if value(x, v) != value(y, v):
            return 'not the same of the same conditions'
    return None


def texts_of(t):
    if t.op == 'const' and t.a[0] == 'str':
        return [t.a[1]]
    if t.op in ('tuple', 'list', 'set') and t.a and all(
            e.op == 'const' and e.a[0] == 'str' for e in t.a):
        return [e.a[1] for e in t.a]
    return None


def wording(t, subj, cs):
    """A condition on a name as a function of it, or None."""
    if t is TRUE or t is FALSE:
        return lambda s: t is TRUE
    if t.op in ('not', 'and', 'or'):
        fs = [wording(y, subj, cs) for y in t.a]
        if None in fs:
            return None
        if t.op == 'not':
            return lambda s: not fs[0](s)
        f = all if t.op == 'and' else any
        return lambda s: f(g(s) for g in fs)
    u = t.a[0] if t.op == 'truth' else t
    m = meth(u, AFFIX)
    if m is not None and m is u and len(m.a[1].a) == 2:
        x, c = m.a[1].a[0], texts_of(m.a[1].a[1])
        if c is None:
            return None
        subj.add(x)
        cs.update(c)
        if m.a[0].a[0] == 'endswith':
            return lambda s: s.endswith(tuple(c))
        return lambda s: s.startswith(tuple(c))
    if u.op in ('eq', 'ne'):
        for x, y in (u.a, u.a[::-1]):
            c = texts_of(y) if y.op == 'const' else None
            if c is not None and x.op != 'const':
                subj.add(x)
                cs.update(c)
                return lambda s: (s == c[0]) == (u.op == 'eq')
    if u.op == 'in' and len(u.a) == 2:
        x, y = u.a
        c = texts_of(y)
        if c is not None and x.op != 'const' and y.op != 'const':
            subj.add(x)
            cs.update(c)
            return lambda s: s in c
        c = texts_of(x)
        if c is not None and x.op == 'const' and y.op == 'sub':
            subj.add(y)
            cs.update(c)
            return lambda s: c[0] in s
    return None


def mentions(t, text):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.op == 'const' and x.a[0] == 'str' and x.a[1] == text:
            return True
        if id(x) not in seen:
            seen.add(id(x))
            todo.extend(y for y in x.a if isinstance(y, T))
    return False


def named(x, y):
    """Conditions on a name, told apart by names made of those they have."""
    subj, cs = set(), set()
    f = wording(x, subj, cs)
    g = f and wording(y, subj, cs)
    if not g or len(subj) != 1 or not cs:
        return None
    s = subj.pop()
    if not any(holds_call(s, n) for n in ('os.listdir', 'numpy.load')) and \
            not inside_op(s, ('fields',)):
        return None
    if mentions(s, '/bounds'):
        return None                 # its columns are known
    for c in sorted(cs):
        for n in (c, c + 's', 'x' + c, 'x' + c + 's', 'other'):
            if f(n) != g(n):
                return "not the same of the name '%s'" % n
    return None


# ------------------------------------------------------------- conversion

def conversion(x, y):
    if x.op == y.op == 'cfgconv' and x.a[1] is y.a[1] and \
            x.a[0] != y.a[0]:
        return 'read as another type'
    if x.op == 'nooption' or y.op == 'nooption':
        if x.op != y.op:
            return 'an option that is not there'
    return None


# ---------------------------------------------------------------- arrays

FILLS = {'numpy.zeros': 0, 'numpy.ones': 1, 'numpy.zeros_like': 0,
         'numpy.ones_like': 1, 'numpy.full': None, 'numpy.full_like': None}


def filled(t):
    """(fill value,) of an array of one value."""
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in FILLS:
        v = FILLS[t.a[0].a[0]]
        if v is None:
            return (t.a[1].a[1],) if len(t.a[1].a) > 1 else None
        return (const(v),)
    return None


def fills(x, y):
    p, q = filled(x), filled(y)
    if p is not None and q is not None:
        c, d = p[0], q[0]
        if num(c) is not None and num(d) is not None:
            return 'filled with another value' if num(c) != num(d) else None
        for u, v in ((c, d), (d, c)):
            if num(u) is not None and (v.op == 'glob' and v.a[0] in (
                    'numpy.inf', 'numpy.nan') or v.op == 'mul' or
                    v.op == 'const' and v.a[0] == 'float'):
                return 'filled with another value'
    return None


def glob(t, *names):
    return t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in names \
        and len(t.a[1].a) > 0


def selects(i):
    """Chooses by the data."""
    if i.op == 'tuple':
        return bool(i.a) and all(x is FULL for x in i.a[1:]) and \
            selects(i.a[0])
    if glob(i, 'numpy.ix_', 'numpy.nonzero', 'numpy.flatnonzero'):
        return True
    if i.op in ('lt', 'le', 'eq', 'ne', 'not', 'and', 'or'):
        return True
    if i.op == 'map':
        return True
    return kind(i) == 'arr'


def heads(i):
    """The first ones."""
    if i.op == 'tuple':
        return bool(i.a) and all(heads(x) or x is FULL for x in i.a) and \
            heads(i.a[0])
    return i.op == 'slice' and (i.a[0] is NONE or num(i.a[0]) == 0) and \
        i.a[1] is not NONE


def peel(p, q):
    """p is q[...][...]...: the selections."""
    out = []
    while p.op == 'sub' and p is not q:
        out.append(p.a[1])
        p = p.a[0]
    return out if p is q else None


def choice(x, y, px, py, root):
    for p, q in ((x, y), (y, x)):
        s = peel(p, q)
        if s:
            for i in s:
                if i.op != 'tuple' or all(z is FULL for z in i.a[1:]):
                    j = first(i)
                    if j is not None and (j.op in (
                            'lt', 'le', 'eq', 'ne', 'and', 'or', 'not') or
                            j.op == 'map' and j.a[2].op != 'bv' and reach(
                                root, x, ORDERLESS)):
                        return 'a selection'
                    if cut(j):
                        return 'a part of it'
    if px is not None and px.op == 'sub' and py.op == 'sub' and \
            px.a[0] is py.a[0] and px.a[1] is x and py.a[1] is y:
        for p, q in ((x, y), (y, x)):
            if heads(p) and selects(q):
                return 'the first ones, and chosen ones'
            if num(p) is not None and q.op == 'slice' and \
                    kind(px.a[0]) != 'dict':
                lo, hi = num(q.a[0]), num(q.a[1])
                if not (lo is not None and hi is not None and
                        abs(hi - lo) < 2):
                    return 'one item, and several'
    for p, q in ((x, y), (y, x)):
        if glob(q, 'numpy.take_along_axis') and len(q.a[1].a) > 1 and \
                p.op == 'sub' and p.a[0] is q.a[1].a[0] and \
                first(p.a[1]) is None and not inside_op(
                    p.a[1], ('call', 'param')) is None and \
                holds_call(q.a[1].a[1], 'numpy.argsort') and \
                not holds_call(p.a[1], 'numpy.argsort'):
            return 'the order of the items'
        if glob(q, 'numpy.atleast_1d', 'numpy.atleast_2d') and \
                q.a[1].a[0] is p and glob(p, 'numpy.loadtxt') and \
                not any(k.a[0] == 'ndmin' for k in p.a[2].a):
            return 'a file of one row'
    return None


def holds_call(t, name):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.op == 'call' and x.a[0].op == 'glob' and x.a[0].a[0] == name:
            return True
        if id(x) not in seen:
            seen.add(id(x))
            todo.extend(y for y in x.a if isinstance(y, T))
    return False


def nonneg(x):
    if x.op == 'pow' and num(x.a[1]) is not None and num(x.a[1]) % 2 == 0:
        return True
    return glob(x, 'numpy.sum', 'sum') and nonneg(x.a[1].a[0])


def matters(root, x):
    """Is x used other than by its order and whether it is zero?"""
    todo, seen = [root], set()
    while todo:
        t = todo.pop()
        if t is x:
            return True
        if id(t) in seen:
            continue
        seen.add(id(t))
        if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in (
                'numpy.argmin', 'numpy.argmax', 'numpy.argsort',
                'numpy.argpartition'):
            continue
        if t.op in ('lt', 'le', 'eq', 'ne') and x in t.a and any(
                num(y) == 0 for y in t.a):
            continue
        todo.extend(y for y in t.a if isinstance(y, T))
    return False


def scalars(x, y, px, root):
    for p, q in ((x, y), (y, x)):
        if q.op == 'pow' and q.a[0] is p and num(q.a[1]) is not None and \
                nonneg(p) and matters(root, x):
            return 'another power'
        if q.op in ('min', 'max') or glob(q, 'min', 'max'):
            a = q.a[1].a if q.op == 'call' else q.a
            if p in a and len(a) == 2 and px is not None and \
                    px.op not in ('slice', 'min', 'max', 'rangelen'):
                o = [z for z in a if z is not p]
                if o and (sizeof(o[0]) or o[0].op == 'param') and \
                        p.op in ('param', 'len') and not (
                            p.op == 'len' and sizeof(o[0])):
                    return 'without a limit'
        # a tolerance
        if p.op in ('lt', 'le') and num(p.a[0]) is not None and \
                num(p.a[0]) > 0:
            v = p.a[1]
            if glob(v, 'numpy.abs', 'abs'):
                v = v.a[1].a[0]
            if v is q or q.op == 'ne' and num(q.a[0]) == 0 and q.a[1] is v \
                    or q.op == 'ne' and num(q.a[1]) == 0 and q.a[0] is v:
                return 'a tolerance'
        if glob(p, 'numpy.isclose') and q.op == 'eq' and \
                set(p.a[1].a[:2]) == set(q.a):
            return 'a tolerance'
    return None


def texts(x, y):
    for p, q in ((x, y), (y, x)):
        if q.op == 'str' and p in q.a and any(
                z.op == 'const' and z.a[0] == 'str' and z.a[1]
                for z in q.a):
            return 'a prefix or ending of a name'
    if x.op == y.op == 'fmtv':
        for p, q in ((x.a[-1], y.a[-1]), (y.a[-1], x.a[-1])):
            if sizeof(p) and getter(q):
                return 'a number of items, and one of their properties'
    for p, q in ((x, y), (y, x)):
        if p.op == 'const' and p.a[0] == 'str' and q.op == 'sub' and \
                num(q.a[1]) is not None and inside_op(q.a[0], ('fields',)):
            return 'a name, and the one at a position'
    return None


def getter(t):
    return t.op == 'prop' or t.op == 'call' and t.a[0].op == 'meth' and \
        t.a[0].a[0] in ('pos', 'velocity', 'trajid', 'accel')


LOOPED = ('ix', 'bv', 'acc', 'whilen', 'lv', 'objd', 'opaque', 'unknown',
          'undef', 'props', 'as_dict', 'propk', 'accessor', 'missing', 'exc')


def sources(x, y):
    """What one side needs, the other one does not have."""
    if x.op in ('ite', 'map', 'fold', 'dmap', 'lupd', 'slice', 'dict',
                'lcat', 'lam') or \
            y.op in ('ite', 'map', 'fold', 'dmap', 'lupd', 'slice', 'dict',
                     'lcat', 'lam'):
        return None
    if sizeof(x) != sizeof(y) and not (x.op == 'param' or y.op == 'param'):
        return None
    for t in (x, y):
        if inside_op(t, LOOPED):
            return None
    d = witness.dependency(x, y)
    if d is not None:
        return 'what it depends on'
    # only one item of an input
    for p, q in ((x, y), (y, x)):
        if q.op == 'param' and str(kind(q))[:3] == 'arr' and \
                only_item(p, q):
            return 'one item stands for all'
    return None


def only_item(t, b):
    todo, seen, n = [t], set(), 0
    while todo:
        x = todo.pop()
        if x is b:
            return False
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'sub' and x.a[0] is b and num(x.a[1]) is not None:
            n += 1
            continue
        if x.op in ('len', 'shape', 'ndim') and x.a[0] is b:
            n += 1
            continue
        todo.extend(y for y in x.a if isinstance(y, T))
    return n > 0


def carried(x, y):
    """Something carried through a loop does not come into it."""
    for p, q in ((x, y), (y, x)):
        if q.op != 'call':
            continue
        a = accs(q)
        if a and not accs(p) and not inside_op(
                p, ('fold', 'slice', 'ite', 'lupd', 'map')):
            return 'what came before does not come into it'
    return None


def accs(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.op == 'acc':
            out.add(x)
        if id(x) in seen or x.op == 'ite':
            continue
        seen.add(id(x))
        todo.extend(y for y in x.a if isinstance(y, T))
    return out


def permuted(x, y, root):
    if x.op == y.op and x.op in ('list', 'lcat') and \
            len(x.a) == len(y.a) and set(x.a) == set(y.a) and \
            len(set(x.a)) == len(x.a) and x is not y and \
            reach(root, x, ORDERLESS | frozenset(['in'])):
        return 'another order'
    return None


def left(x, y):
    """A loop that is left, and one that goes on with the next."""
    for p, q in ((x, y), (y, x)):
        if p.op == 'until' and len(p.a) > 1 and p.a[1] is q:
            return 'a loop is left early'
    return None


# --------------------------------------------------------------- together

def reason(x, y, px, py, root):
    """Why x and y are not the same, or None."""
    if x.op == y.op == 'sub' and x.a[0] is y.a[0] and \
            axes(x.a[1], y.a[1]):
        return 'another axis is new'
    if one_row(x, y, root):
        return 'a file of one row'
    for p, q in ((x, y), (y, x)):
        if p.op == 'rounded' and p.a[1] is q:
            return 'rounded'
        if p.op == 'sub' and p.a[0] is q:
            i = first(p.a[1])
            if cut(i):
                return 'a part of it'
            if back(i) and reach(root, x, ORDERLESS):
                return 'the other way round'
    r = slices(x, y)
    if r and px is not None and px.op in ('sub', 'upd', 'tuple'):
        return r
    for f in (trims, strings, named, numbers, formulas, conversion, fills, texts,
              sources, carried, left):
        r = f(x, y)
        if r:
            return r
    r = choice(x, y, px, py, root) or scalars(x, y, px, root) or \
        permuted(x, y, root)
    if r:
        return r
    p = presence(x, y)
    if p is not None and compared(root, p):
        return 'zero is taken for not given'
    from . import places
    return places.reason(x, y, px, py, root)


def one_row(x, y, root):
    """Read with and without a least number of dimensions."""
    if not (glob(x, 'numpy.loadtxt') and glob(y, 'numpy.loadtxt')) or \
            x.a[1] is not y.a[1]:
        return False
    kx = dict((k.a[0], k.a[1]) for k in x.a[2].a)
    ky = dict((k.a[0], k.a[1]) for k in y.a[2].a)
    if ('ndmin' in kx) == ('ndmin' in ky):
        return False
    nd = kx.pop('ndmin', None) or ky.pop('ndmin', None)
    if kx != ky or num(nd) is None or num(nd) < 1:
        return False
    # the number of dimensions may be seen to later on
    return not reach(root, mk('ndim', x), ()) and \
        not reach(root, mk('shape', x), ()) and not inside_op(
            root, ('reshape',)) and not any(
                holds_call(root, n) for n in (
                    'numpy.reshape', 'numpy.atleast_2d', 'numpy.atleast_1d',
                    'numpy.atleast_3d', 'numpy.array', 'numpy.ravel'))


def axes(x, y):
    x = x if x.op == 'tuple' else mk('tuple', x)
    y = y if y.op == 'tuple' else mk('tuple', y)
    for t in (x, y):
        if any(z is not NONE and z is not FULL for z in t.a):
            return False
    return [i for i, z in enumerate(x.a) if z is NONE] != \
        [i for i, z in enumerate(y.a) if z is NONE]


# differences that do not make up for each other
ONEWAY = frozenset(['rounded', 'a selection', 'a part of it',
                    'read as another type', 'a file of one row',
                    'zero is taken for not given', 'not all columns'])


def judge(a, b, trust, restr, compare):
    """(why, x, y), True if the same, or None."""
    D = disagree(a, b, trust, restr)
    if not D:
        return None
    e = exchanged(D)
    if e is not None:
        x, y, p = e
        if p is not None and p.op in ('list', 'tuple', 'sub', 'lt', 'le',
                                      'dict', 'pair', 'new', 'struct') and \
                all(v[2] for v in D.values()) and \
                reach(a, p, ORDERLESS | frozenset(['in'])) and \
                p.op != 'dict':
            return 'exchanged', x, y
    for x, y, px, py in explain(D)[:4]:
        if px is not None and px.op in ('sub', 'upd') and 'tuple' in (
                x.op, y.op) and any(z.op == 'const' and num(z) is None
                                    for t in (x, y) if t.op == 'tuple'
                                    for z in t.a):
            # new axes and ellipses
            if px.op == 'sub' and px.a[0] is py.a[0] and axes(x, y):
                return 'another axis is new', x, y
            continue
        r = compare(x, y)
        if r.s == 'eq':
            return True
        if r.s == 'diff':
            return r.why, r.a, r.b
        w = reason(x, y, px, py, a)
        if w:
            return w, x, y
    if 1 < len(D) < 4:
        # places of one part of the value: that part
        vs = list(D.values())
        px, py = vs[0][:2]
        if px is not None and all(v[0] is px and v[1] is py and v[2]
                                  for v in vs) and px.op == py.op == 'upd':
            from . import places
            w = places.updates(px, py, a)
            if w:
                return w, px, py
    from . import places
    for (x, y), v in D.items():
        if len(D) < 12 and v[2]:
            w = places.alone(x, y, v[0], v[1], a)
            if w:
                return w, x, y
    if 1 < len(D) < 12 and all(v[2] for v in D.values()):
        ws = [(choice(x, y, v[0], v[1], a) or
               reason(x, y, v[0], v[1], a), x, y)
              for (x, y), v in D.items()]
        if ws[0][0] in ONEWAY and all(w[0] == ws[0][0] for w in ws) and (
                all(inside(x, y) for w, x, y in ws) or
                all(inside(y, x) for w, x, y in ws) or
                ws[0][0] not in ('a selection', 'a part of it')):
            return ws[0]
    return None
