"""
Storage kept for several items: a mutable value made once before a loop, then
kept by the loop under several keys (or given out by a generator at several
steps), and changed in place through one of them.  The value-flow analysis of
loops gives each step values of its own, so this is decided apart, by reaching
definitions of names in the syntax tree.
"""
import ast

ARRAYS = frozenset('''zeros ones empty full array asarray arange linspace
    zeros_like ones_like empty_like full_like copy vstack hstack concatenate
    column_stack tile repeat atleast_1d atleast_2d eye identity'''.split())
CONT = frozenset('list dict set deque defaultdict OrderedDict bytearray'
                 .split())
MUT = frozenset('''append extend insert remove pop clear update setdefault add
    discard sort reverse popitem fill put resize itemset'''.split())
LOOPS = (ast.For, ast.While)
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def classes(tree):
    """Names of the classes of a module, imported ones by their look."""
    return frozenset(n.name for n in ast.walk(tree)
                     if isinstance(n, ast.ClassDef))


def fresh(e, cls):
    """Does the expression make a new thing that can be changed?"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return 'container'
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) \
            and e.value.attr in ('r_', 'c_'):
        return 'array'
    if isinstance(e, ast.BinOp):
        k = fresh(e.left, cls) or fresh(e.right, cls)
        return k
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute):
            if f.attr in ARRAYS:
                return 'array'
            if f.attr in CONT:
                return 'container'
            if f.attr in cls:
                return 'object'
        if isinstance(f, ast.Name):
            if f.id in CONT:
                return 'container'
            if f.id in ARRAYS:
                return 'array'
            if f.id in cls:
                return 'object'
    return None


def body(fn):
    """Nodes of a function, without those of functions inside it."""
    todo = list(fn.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, FUNCS):
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


def inside(loop):
    todo = list(loop.body)
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, FUNCS):
            todo = list(ast.iter_child_nodes(n)) + todo


def names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [x for e in t.elts for x in names(e)]
    if isinstance(t, ast.Starred):
        return names(t.value)
    return []


def binds(n):
    """Names a node binds (not their elements)."""
    if isinstance(n, ast.Assign):
        return [x for t in n.targets for x in names(t)]
    if isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
        return names(n.target)
    if isinstance(n, ast.For):
        return names(n.target)
    if isinstance(n, ast.With):
        return [x for i in n.items if i.optional_vars is not None
                for x in names(i.optional_vars)]
    return []


def paired(n):
    """(name, value) of plain assignments."""
    out = []
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Name):
                out.append((t.id, n.value))
            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                    n.value, (ast.Tuple, ast.List)) and \
                    len(t.elts) == len(n.value.elts):
                out += [(x.id, v) for x, v in zip(t.elts, n.value.elts)
                        if isinstance(x, ast.Name)]
    return out


def root(e):
    """(path text, base) of x, x.y and so on; None of other expressions."""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        r = root(e.value)
        return r and r + '.' + e.attr
    return None


def direct(e):
    """Expressions whose very values an expression holds."""
    if isinstance(e, (ast.Tuple, ast.List)):
        return [x for v in e.elts for x in direct(v)]
    if isinstance(e, ast.Dict):
        return [x for v in e.values for x in direct(v)]
    if isinstance(e, ast.IfExp):
        return direct(e.body) + direct(e.orelse)
    return [e]


def stores(n):
    """(container path, key, value) of what a node keeps in a container."""
    out = []
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                c = root(t.value)
                # into an array the elements are copied
                if c and not isinstance(t.slice, ast.Slice):
                    out.append((c, t.slice, n.value))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        c = root(n.func.value)
        if c and n.func.attr in ('append', 'appendleft', 'add') and \
                len(n.args) == 1:
            out.append((c, None, n.args[0]))
        if c and n.func.attr == 'insert' and len(n.args) == 2:
            out.append((c, None, n.args[1]))
        if c and n.func.attr == 'setdefault' and len(n.args) == 2:
            out.append((c, n.args[0], n.args[1]))
    return out


def changes(n):
    """(path, depth, how) of things a node changes in place: depth 0 - the
    value of the path, 1 - an element of it."""
    out = []

    def target(t, aug):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e, aug)
        elif isinstance(t, ast.Subscript):
            d, e = 0, t.value
            while isinstance(e, ast.Subscript):
                d, e = d + 1, e.value
            r = root(e)
            if r:
                out.append((r, d))
                if aug:
                    out.append((r, d + 1))
        elif aug and root(t):
            out.append((root(t), 0))

    if isinstance(n, ast.Assign):
        for t in n.targets:
            target(t, False)
    elif isinstance(n, ast.AugAssign):
        target(n.target, True)
    elif isinstance(n, ast.Delete):
        for t in n.targets:
            target(t, False)
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            (n.func.attr in MUT or n.func.attr.startswith('set_') or
             n.func.attr in ('create_property',)):
        d, e = 0, n.func.value
        while isinstance(e, ast.Subscript):
            d, e = d + 1, e.value
        r = root(e)
        if r:
            out.append((r, d))
    for k in getattr(n, 'keywords', None) or ():
        if k.arg == 'out' and root(k.value):
            out.append((root(k.value), 0))
    return out


def elements(fn):
    """{name: containers it is an element of} by loops over containers and
    plain look-ups."""
    out = {}

    def of(it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr in ('values', 'items', 'get', 'itervalues',
                                     'iteritems'):
            return root(it.func.value)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
                it.func.id in ('enumerate', 'list', 'reversed', 'sorted') and \
                it.args:
            return of(it.args[0])
        return root(it)

    for n in body(fn):
        if isinstance(n, (ast.For, ast.comprehension)):
            c = of(n.iter)
            if c:
                for x in names(n.target):
                    out.setdefault(x, set()).add(c)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript):
            c = root(n.value.value)
            if c and not isinstance(n.value.slice, ast.Slice):
                for x in names(n.targets[0]):
                    out.setdefault(x, set()).add(c)
    return out


def shared(fn, cls):
    """(node, text) of what a function keeps more than once and changes."""
    out = []
    defs = {}           # name: what it is bound to, None of what is unclear
    for n in body(fn):
        known = dict(paired(n))
        for x in binds(n):
            defs.setdefault(x, []).append(known.get(x))
    mods = [(n,) + c for n in body(fn) for c in changes(n)]
    elem = elements(fn)
    looked = 0

    def container(c):
        """Is it known to hold the values themselves?  Arrays and tables
        copy what is put in them."""
        ds = defs.get(c)
        if not ds:
            return False
        for e in ds:
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
                e = e.left if isinstance(e.left, ast.List) else e.right
                if not isinstance(e, ast.List):
                    return False
            elif isinstance(e, ast.BinOp):
                return False
            if fresh(e, cls) != 'container':
                return False
        return True

    def altered(c, stored, how, ind):
        """Is an element of the container changed in place?"""
        for m, p, d in mods:
            if p == c and d >= 1 and m is not ind:
                # C[k] op= v changes the element itself only where that has
                # its own way to, as arrays and lists do
                return m
            if d == 0 and p in elem and c in elem[p] and p != stored:
                return m
        return None

    loops = [n for n in body(fn) if isinstance(n, LOOPS)]
    for lp in loops:
        own = list(inside(lp))
        bound = set(x for n in own for x in binds(n))
        if isinstance(lp, ast.For):
            bound.update(names(lp.target))
        for n in own:
            kept = [(c, v, False) for c, k, v in stores(n)
                    if container(c) and (k is None or varies(k, bound))]
            if isinstance(n, ast.Yield) and n.value is not None and \
                    not hidden(fn.name):
                kept.append((None, n.value, True))
            for c, v, out_ in kept:
                for x in direct(v):
                    r = root(x)
                    if r is None or not isinstance(x, ast.Name):
                        continue
                    looked += 1
                    if r in bound or not defs.get(r):
                        continue
                    ds = defs[r]
                    ks = set(fresh(d, cls) for d in ds)
                    if None in ks:
                        continue
                    if leaves(lp, n):
                        continue
                    m = None
                    for k, p, d in mods:
                        if p == r and d == 0 and any(k is q for q in own):
                            m = k
                    if m is None and c is not None:
                        if c in bound:
                            continue
                        m = altered(c, r, ks, n)
                    if m is not None:
                        out.append((n, m, "'%s', made once at line %d, is %s "
                                    "at every step of the loop at line %d and "
                                    "changed in place at line %d" % (
                                        r, ds[0].lineno, 'given out'
                                        if out_ else "kept in '%s'" % c,
                                        lp.lineno, m.lineno)))
    for n in body(fn):
        # [[]] * n and dict.fromkeys(k, [])
        for t, e in paired(n):
            v = None
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
                for s in (e.left, e.right):
                    if isinstance(s, ast.List) and len(s.elts) == 1:
                        v = s.elts[0]
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                    e.func.attr == 'fromkeys' and len(e.args) == 2:
                v = e.args[1]
            if t and v is not None:
                looked += 1
                if fresh(v, cls):
                    m = altered(t, None, None, n)
                    if m is not None:
                        out.append((n, m, "all elements of '%s' are the same one, "
                                    "and it is changed in place at line %d" % (
                                        t, m.lineno)))
    return out, looked


def varies(k, bound):
    return any(isinstance(x, ast.Name) and x.id in bound or
               isinstance(x, ast.Call) for x in ast.walk(k))


def hidden(name):
    return name.startswith('_') and not name.endswith('__')


def leaves(lp, n):
    """Is the loop left right after the node, so that it is kept once?"""
    def search(stmts):
        for i, s in enumerate(stmts):
            if s is n or any(x is n for x in ast.walk(s)):
                if any(isinstance(q, (ast.Break, ast.Return, ast.Raise))
                       for q in stmts[i:]):
                    return True
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, f, None)
                    if isinstance(b, list) and not isinstance(s, LOOPS) and \
                            search(b):
                        return True
        return False
    return search(lp.body)


def functions(sources):
    """(qualified name, function, file, classes)."""
    every = frozenset(x for p, t in sources.values() for x in classes(t))
    for m, (path, tree) in sorted(sources.items()):
        def go(node, q):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef):
                    for x in go(n, q + '.' + n.name):
                        yield x
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield q + '.' + n.name, n, path
                    for x in go(n, q + '.' + n.name):
                        yield x
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    for x in go(n, q):
                        yield x
        for q, n, path in go(tree, m):
            yield q, n, path, every


def check(sources, only=None):
    """[(where, function, text)], constructs looked at, functions."""
    out, looked, seen = [], 0, []
    for q, n, path, cls in functions(sources):
        if only is not None and q not in only:
            continue
        seen.append(q)
        found, k = shared(n, cls)
        looked += k
        for at, m, text in found:
            out.append(('%s:%d' % (path, at.lineno), q, text))
    return out, looked, seen
