"""
Where two terms are not the same: both are walked down together as long as
they are built alike.
"""
from .terms import *

NARY = frozenset(['add', 'mul', 'and', 'or'])
LIMIT = 4000


class Too(Exception):
    pass


def inside(t, c):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x is c:
            return True
        if id(x) not in seen:
            seen.add(id(x))
            todo.extend(y for y in x.a if isinstance(y, T))
    return False


def rename(xs, h, k):
    m = {mk('bv', h): mk('bv', k)}
    for j in range(12):
        m[mk('acc', h, j)] = mk('acc', k, j)
    return [subst(x, m) if isinstance(x, T) else x for x in xs]


def unfold(t):
    """A list built in a loop along with other things, as its items."""
    if t.op == 'map':
        return t
    h, n, init, step = t.a
    if init.a[0].op != 'list' or init.a[0].a:
        return None
    me = mk('acc', h, 0)

    def go(s, c):
        if s is me:
            return []
        if s.op == 'ite':
            p, q = (go(s.a[i], and_(c, s.a[0] if i == 1 else not_(s.a[0])))
                    for i in (1, 2))
            return None if p is None or q is None else p + q
        if s.op == 'lcat' and len(s.a) == 2 and s.a[0] is me and \
                s.a[1].op == 'list' and len(s.a[1].a) == 1:
            return [(s.a[1].a[0], c)]
        return None
    r = go(step.a[0], TRUE)
    if r is None or len(r) != 1:
        return None
    return mk('map', h, n, r[0][0], r[0][1])


def oriented(t):
    """{inputs of a summand: its sign}."""
    out = {}
    for x in t.a:
        s = x.op == 'mul' and any((num(y) or 0) < 0 for y in x.a)
        todo, seen, ps = [x], set(), set()
        while todo:
            y = todo.pop()
            if y.op == 'param':
                ps.add(y)
            elif id(y) not in seen:
                seen.add(id(y))
                todo.extend(z for z in y.a if isinstance(z, T))
        out[frozenset(ps)] = s
    return out


def against(a, b):
    """The same difference, the other way round."""
    p, q = oriented(a), oriented(b)
    return len(p) == len(a.a) == len(b.a) == 2 and set(p) == set(q) and \
        all(p[k] != q[k] for k in p)


class Walk(object):
    def __init__(self, trust=lambda c, v: True, restr=restrict):
        self.trust, self.restr = trust, restr
        self.out = {}       # (x, y) -> (parent of x, parent of y)
        self.seen = set()
        self.n = 0

    def go(self, a, b, pa=None, pb=None, t=True):
        if a is b or (a, b, t) in self.seen:
            return
        self.seen.add((a, b, t))
        self.n += 1
        if self.n > LIMIT:
            raise Too()
        if a.op != b.op:
            # values that only differ in being copied
            if a.op == 'arr' and b.op != 'arr':
                return self.go(a.a[0], b, pa, pb, t)
            if b.op == 'arr':
                return self.go(a, b.a[0], pa, pb, t)
            if (a.op == 'ite') != (b.op == 'ite'):
                c = (a if a.op == 'ite' else b).a[0]
                o = b if a.op == 'ite' else a
                if inside(o, c):
                    for v in (True, False):
                        self.go(self.restr(a, c, v), self.restr(b, c, v),
                                pa, pb, t and self.trust(c, v))
                    return
            if set((a.op, b.op)) == set(('fold', 'map')):
                a2, b2 = unfold(a), unfold(b)
                if a2 is not None and b2 is not None and \
                        a2.a[1] is b2.a[1]:
                    return self.go(a2, b2, pa, pb, t)
            return self.leaf(a, b, pa, pb, t)
        if a.op == 'pow' and a.a[1] is b.a[1] and \
                num(a.a[1]) in (2, 4) and a.a[0].op == b.a[0].op == 'add' \
                and against(a.a[0], b.a[0]):
            return self.go(a.a[0], mul(const(-1), b.a[0]), a, b, t)
        if a.op in NARY or a.op in ('eq', 'ne'):
            xs = [x for x in a.a if x not in b.a]
            ys = [y for y in b.a if y not in a.a]
            if len(xs) == len(ys) == 1 and len(a.a) == len(b.a) and \
                    (len(a.a) > 1):
                return self.go(xs[0], ys[0], a, b, t)
            if a.op == 'add' and len(xs) > 1:
                from .places import shifts
                if shifts(a, b):
                    return self.leaf(a, b, pa, pb, t)
            if len(xs) == len(ys) and len(a.a) == len(b.a) and \
                    len(xs) <= 3:
                m = self.match(xs, ys)
                if m is not None:
                    for x, y in m:
                        self.go(x, y, a, b, t)
                    return
            return self.leaf(a, b, pa, pb, t)
        if a.op == 'slice':
            d = [i for i in range(3) if a.a[i] is not b.a[i]]
            if len(d) == 1 and all(z is not NONE and num(z) is None
                                   for z in (a.a[d[0]], b.a[d[0]])):
                return self.go(a.a[d[0]], b.a[d[0]], a, b, t)
        if a.op == 'slice' or len(a.a) != len(b.a):
            return self.leaf(a, b, pa, pb, t)
        if a.op in ('list', 'lcat') and len(a.a) > 1 and \
                len(set(a.a)) == len(a.a) and set(a.a) == set(b.a):
            return self.leaf(a, b, pa, pb, t)
        xs, ys = list(a.a), list(b.a)
        if a.op == 'dict':
            da = dict((p.a[0], p.a[1]) for p in a.a)
            db = dict((p.a[0], p.a[1]) for p in b.a)
            if set(da) == set(db):
                for k in da:
                    self.go(da[k], db[k], a, b, t)
                return
        if a.op in BINDERS and isinstance(xs[0], int) and xs[0] != ys[0]:
            h = max(xs[0], ys[0]) + 1000
            xs = [h] + rename(xs[1:], xs[0], h)
            ys = [h] + rename(ys[1:], ys[0], h)
        for x, y in zip(xs, ys):
            if not isinstance(x, T) or not isinstance(y, T):
                if x is not y and x != y:
                    return self.leaf(a, b, pa, pb, t)
        if a.op == 'call' and (xs[0] is not ys[0] or [
                k.a[0] for k in xs[2].a if isinstance(k, T)] != [
                k.a[0] for k in ys[2].a if isinstance(k, T)]):
            return self.leaf(a, b, pa, pb, t)
        if a.op == 'ite' and xs[0] is ys[0]:
            c = xs[0]
            self.go(xs[1], ys[1], a, b, t and self.trust(c, True))
            self.go(xs[2], ys[2], a, b, t and self.trust(c, False))
            return
        for x, y in zip(xs, ys):
            if isinstance(x, T):
                self.go(x, y, a, b, t)

    def match(self, xs, ys):
        out, left = [], list(ys)
        for x in xs:
            c = [y for y in left if y.op == x.op and len(y.a) == len(x.a)]
            if len(c) > 1:
                s = dict((y, len(set(x.a) & set(y.a))) for y in c)
                m = max(s.values())
                c = [y for y in c if s[y] == m and m]
            if len(c) != 1:
                return None
            out.append((x, c[0]))
            left.remove(c[0])
        return out

    def leaf(self, a, b, pa, pb, t):
        if (a, b) not in self.out and len(self.out) > 60:
            raise Too()
        if (a, b) not in self.out or t and not self.out[(a, b)][2]:
            self.out[(a, b)] = (pa, pb, t)


def disagree(a, b, trust=lambda c, v: True, restr=restrict):
    """{(x, y): parents} of places where they differ, None if too many."""
    w = Walk(trust, restr)
    try:
        w.go(a, b)
    except Too:
        return None
    return w.out


def explain(D):
    """
    Pairs of parts each of which alone accounts for the whole difference.
    """
    if not D or not any(v[2] for v in D.values()):
        return []
    ps = sorted(D, key=lambda p: p[0].sz + p[1].sz)
    if len(ps) == 1:
        return [(ps[0][0], ps[0][1]) + D[ps[0]][:2]]
    out = []
    for x, y in ps[:6]:
        if x.op in ('const', 'rat', 'slice') or \
                y.op == 'ite' and x.op != 'ite' or not D[(x, y)][2]:
            continue
        m = {x: y}
        if kind(x) == 'bool' and kind(y) == 'bool':
            m[not_(x)] = not_(y)
        if all((p, q) == (x, y) or subst(p, m) is q for p, q in ps):
            out.append((x, y) + D[(x, y)][:2])
    return out


def exchanged(D):
    """Two places whose contents are exchanged."""
    if not D or len(D) != 2:
        return None
    (x1, y1), (x2, y2) = D
    if x1 is y2 and x2 is y1:
        p, q = D[(x1, y1)][:2], D[(x2, y2)][:2]
        if None not in p and p[0] is q[1] and p[1] is q[0] and \
                p[0].op == 'sub' and x1.op == 'const' and \
                p[0].a[0] is p[1].a[0]:
            return x1, y1, p[0]
        p, q = D[(x1, y1)][0], D[(x2, y2)][0]
        if p is q or D[(x1, y1)][1] is D[(x2, y2)][1]:
            return x1, y1, p
    return None
