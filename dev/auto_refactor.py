"""
python3 dev/auto_refactor.py [KIND...]: rewrite the whole package in one way
that keeps its behaviour, and run all obligations and rules: none may say DIFF.
"""
import ast, os, sys, time, copy
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'dev'))
sys.setrecursionlimit(20000)
import check
from vsa import oblig, findings
from vsa.engine import load_sources
check.load_props()
SRC = load_sources()
KN = findings.known()
KINDS = {}
N = [0]


def kind(f):
    KINDS[f.__name__] = f
    return f


def name(p='t'):
    N[0] += 1
    return '_%s%d' % (p, N[0])


def L(n):
    return ast.Name(n, ast.Load())


def S(n):
    return ast.Name(n, ast.Store())


def assign(n, v):
    return ast.Assign([S(n)], v)


class Stmts(ast.NodeTransformer):
    """Rewrites lists of statements with self.stmt(st) -> list or None."""
    def block(self, body):
        out = []
        for st in body:
            st = self.generic_visit(st) if not isinstance(st, list) else st
            r = self.stmt(st)
            out.extend([st] if r is None else r)
        return out

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))
        for h in getattr(node, 'handlers', []) or []:
            h.body = self.block(h.body)
        return node

    def visit_Module(self, node):
        return self.generic_visit(node)

    def stmt(self, st):
        return None


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or \
        isinstance(e, ast.Attribute) and simple(e.value)


def own(fn):
    """Statements of the function, not of functions inside."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def doc(body):
    return body[:1] if body and isinstance(body[0], ast.Expr) and isinstance(
        body[0].value, ast.Constant) and isinstance(
            body[0].value.value, str) else []


@kind
def invert_if(tree):
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.If) and st.orelse:
                return [ast.If(ast.UnaryOp(ast.Not(), st.test), st.orelse,
                               st.body)]
    return X().visit(tree)


@kind
def else_pass(tree):
    """if c: A -> if not c: pass else: A"""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.If) and not st.orelse:
                return [ast.If(ast.UnaryOp(ast.Not(), st.test), [ast.Pass()],
                               st.body)]
    return X().visit(tree)


@kind
def listcomp_loop(tree):
    """x = [e for v in it if c] by a loop."""
    class X(Stmts):
        def stmt(self, st):
            v = getattr(st, 'value', None)
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(
                    v, ast.ListComp) and len(v.generators) == 1:
                g = v.generators[0]
                t = name('l')
                b = [ast.Expr(ast.Call(ast.Attribute(
                    L(t), 'append', ast.Load()), [v.elt], []))]
                for c in g.ifs:
                    b = [ast.If(c, b, [])]
                st.value = L(t)
                return [assign(t, ast.List([], ast.Load())),
                        ast.For(g.target, g.iter, b, []), st]
    return X().visit(tree)


@kind
def loop_listcomp(tree):
    """A loop that only appends as a comprehension."""
    class X(Stmts):
        def block(self, body):
            body = Stmts.block(self, body)
            out = []
            for st in body:
                if out and isinstance(st, ast.For) and not st.orelse and \
                        isinstance(out[-1], ast.Assign) and isinstance(
                            out[-1].value, ast.List) and \
                        not out[-1].value.elts and isinstance(
                            out[-1].targets[0], ast.Name):
                    n = out[-1].targets[0].id
                    b, ifs = st.body, []
                    while len(b) == 1 and isinstance(b[0], ast.If) and \
                            not b[0].orelse:
                        ifs.append(b[0].test)
                        b = b[0].body
                    if len(b) == 1 and isinstance(b[0], ast.Expr) and \
                            isinstance(b[0].value, ast.Call) and isinstance(
                                b[0].value.func, ast.Attribute) and \
                            b[0].value.func.attr == 'append' and isinstance(
                                b[0].value.func.value, ast.Name) and \
                            b[0].value.func.value.id == n:
                        out[-1] = assign(n, ast.ListComp(
                            b[0].value.args[0], [ast.comprehension(
                                st.target, st.iter, ifs, 0)]))
                        continue
                out.append(st)
            return out
    return X().visit(tree)


@kind
def gen_loop(tree):
    """dict((k, v) for ...) as a dict comprehension."""
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'dict' and \
                    len(n.args) == 1 and not n.keywords and isinstance(
                        n.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                    isinstance(n.args[0].elt, ast.Tuple):
                g = n.args[0]
                return ast.DictComp(g.elt.elts[0], g.elt.elts[1],
                                    g.generators)
            return n
    return X().visit(tree)


@kind
def dict_loop(tree):
    """x = dict((k, v) for ...) by a loop."""
    class X(Stmts):
        def stmt(self, st):
            n = getattr(st, 'value', None)
            if isinstance(st, ast.Assign) and isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Name) and n.func.id == 'dict' and \
                    len(n.args) == 1 and not n.keywords and isinstance(
                        n.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                    isinstance(n.args[0].elt, ast.Tuple) and \
                    len(n.args[0].generators) == 1:
                g = n.args[0].generators[0]
                t = name('d')
                b = [ast.Assign([ast.Subscript(
                    L(t), n.args[0].elt.elts[0], ast.Store())],
                    n.args[0].elt.elts[1])]
                for c in g.ifs:
                    b = [ast.If(c, b, [])]
                st.value = L(t)
                return [assign(t, ast.Dict([], [])),
                        ast.For(g.target, g.iter, b, []), st]
    return X().visit(tree)


@kind
def temps(tree):
    """The arguments of the outermost call first, into variables."""
    class X(Stmts):
        def stmt(self, st):
            v = getattr(st, 'value', None)
            if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and \
                    isinstance(v, ast.Call) and not any(
                        isinstance(a, ast.Starred) for a in v.args):
                pre = []
                for i, a in enumerate(v.args):
                    if not simple(a) and not isinstance(a, (
                            ast.Lambda, ast.GeneratorExp)):
                        t = name()
                        pre.append(assign(t, a))
                        v.args[i] = L(t)
                return pre + [st]
    return X().visit(tree)


@kind
def returns(tree):
    """return e as result = e; return result."""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.Return) and st.value is not None and \
                    not simple(st.value):
                t = name('r')
                return [assign(t, st.value), ast.Return(L(t))]
    return X().visit(tree)


@kind
def guard_else(tree):
    """if c: return a; rest -> if c: return a else: rest"""
    class X(Stmts):
        def block(self, body):
            body = Stmts.block(self, body)
            for i, st in enumerate(body):
                if isinstance(st, ast.If) and not st.orelse and isinstance(
                        st.body[-1], (ast.Return, ast.Continue, ast.Raise)) \
                        and body[i + 1:]:
                    st.orelse = self.block2(body[i + 1:])
                    return body[:i + 1]
            return body

        def block2(self, body):
            return body
    return X().visit(tree)


@kind
def continue_if(tree):
    """if c: continue; rest -> if not c: rest; and the other way."""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.For):
                for i, s in enumerate(st.body):
                    if isinstance(s, ast.If) and not s.orelse and \
                            len(s.body) == 1 and isinstance(
                                s.body[0], ast.Continue) and st.body[i + 1:]:
                        st.body = st.body[:i] + [ast.If(ast.UnaryOp(
                            ast.Not(), s.test), st.body[i + 1:], [])]
                        return [st]
                s = st.body[-1]
                if isinstance(s, ast.If) and not s.orelse and \
                        len(st.body) > 1:
                    st.body = st.body[:-1] + [ast.If(ast.UnaryOp(
                        ast.Not(), s.test), [ast.Continue()], [])] + s.body
                    return [st]
    return X().visit(tree)


@kind
def rename_locals(tree):
    for fn in functions(tree):
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global,
                              ast.Nonlocal)) for n in ast.walk(fn)
               if n is not fn):
            continue
        args = set(a.arg for a in fn.args.args + fn.args.kwonlyargs)
        if fn.args.vararg:
            args.add(fn.args.vararg.arg)
        if fn.args.kwarg:
            args.add(fn.args.kwarg.arg)
        st = set(n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
                 isinstance(n.ctx, ast.Store)) - args
        # names a query of the table refers to
        txt = [n.value for n in ast.walk(fn) if isinstance(n, ast.Constant)
               and isinstance(n.value, str)]
        st = set(x for x in st if not any(
            'time' in s and '==' in s or 'trid' in s for s in txt))
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in st:
                n.id = 'my_' + n.id
    return tree


@kind
def impl(tree):
    """Each method or function calls one that does it."""
    class X(ast.NodeTransformer):
        def body(self, body, method):
            out = []
            for st in body:
                if isinstance(st, ast.ClassDef):
                    st.body = self.body(st.body, True)
                if isinstance(st, ast.FunctionDef) and \
                        not st.decorator_list and not (
                            st.name.startswith('__')) and \
                        not st.args.vararg and not st.args.kwarg and \
                        not any(isinstance(n, (ast.Yield, ast.YieldFrom))
                                for n in own(st)):
                    a = copy.deepcopy(st)
                    a.name = '_do_' + st.name.lstrip('_')
                    a.args.defaults = []
                    ns = [x.arg for x in st.args.args]
                    if method:
                        f = ast.Attribute(L(ns[0]), a.name, ast.Load())
                        ns = ns[1:]
                    else:
                        f = L(a.name)
                    st.body = doc(st.body) + [ast.Return(ast.Call(
                        f, [L(n) for n in ns], []))]
                    out.append(a)
                out.append(st)
            return out
    tree.body = X().body(tree.body, False)
    return tree


@kind
def gen_impl(tree):
    """Generators that hand on another one's items."""
    class X(object):
        def body(self, body, method):
            out = []
            for st in body:
                if isinstance(st, ast.ClassDef):
                    st.body = self.body(st.body, True)
                if isinstance(st, ast.FunctionDef) and \
                        not st.decorator_list and \
                        not st.args.vararg and not st.args.kwarg and \
                        any(isinstance(n, (ast.Yield, ast.YieldFrom))
                            for n in own(st)):
                    a = copy.deepcopy(st)
                    a.name = '_do_' + st.name.strip('_')
                    a.args.defaults = []
                    ns = [x.arg for x in st.args.args]
                    if method:
                        f = ast.Attribute(L(ns[0]), a.name, ast.Load())
                        ns = ns[1:]
                    else:
                        f = L(a.name)
                    t = name('y')
                    st.body = doc(st.body) + [ast.For(S(t), ast.Call(
                        f, [L(n) for n in ns], []), [ast.Expr(ast.Yield(
                            L(t)))], [])]
                    out.append(a)
                out.append(st)
            return out
    tree.body = X().body(tree.body, False)
    return tree


@kind
def flip_compare(tree):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
         ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in F:
                return ast.Compare(n.comparators[0], [F[type(n.ops[0])]()],
                                   [n.left])
            return n
    return X().visit(tree)


@kind
def not_none(tree):
    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.IsNot,
                                                         ast.NotIn)):
                o = ast.Is() if isinstance(n.ops[0], ast.IsNot) else ast.In()
                return ast.UnaryOp(ast.Not(), ast.Compare(
                    n.left, [o], n.comparators))
            return n
    return X().visit(tree)


@kind
def and_nested(tree):
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.If) and not st.orelse and isinstance(
                    st.test, ast.BoolOp) and isinstance(
                        st.test.op, ast.And):
                b = st.body
                for v in reversed(st.test.values):
                    b = [ast.If(v, b, [])]
                return b
    return X().visit(tree)


@kind
def ternary_if(tree):
    class X(Stmts):
        def stmt(self, st):
            v = getattr(st, 'value', None)
            if isinstance(st, ast.Assign) and isinstance(v, ast.IfExp) and \
                    isinstance(st.targets[0], ast.Name):
                return [ast.If(v.test, [ast.Assign(st.targets, v.body)],
                               [ast.Assign(copy.deepcopy(st.targets),
                                           v.orelse)])]
            if isinstance(st, ast.Return) and isinstance(v, ast.IfExp):
                return [ast.If(v.test, [ast.Return(v.body)],
                               [ast.Return(v.orelse)])]
    return X().visit(tree)


@kind
def if_ternary(tree):
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.If) and len(st.body) == len(
                    st.orelse) == 1:
                a, b = st.body[0], st.orelse[0]
                if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) \
                        and ast.dump(a.targets[0]) == ast.dump(b.targets[0]):
                    return [ast.Assign(a.targets, ast.IfExp(
                        st.test, a.value, b.value))]
                if isinstance(a, ast.Return) and isinstance(b, ast.Return) \
                        and a.value and b.value:
                    return [ast.Return(ast.IfExp(st.test, a.value, b.value))]
    return X().visit(tree)


@kind
def cond_var(tree):
    """Conditions into variables."""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.If) and not simple(st.test):
                t = name('c')
                v = st.test
                st.test = L(t)
                return [assign(t, v), st]
    return X().visit(tree)


@kind
def iter_var(tree):
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.For) and not simple(st.iter):
                t = name('i')
                v = st.iter
                st.iter = L(t)
                return [assign(t, v), st]
    return X().visit(tree)


METH = {'sum': 'sum', 'min': 'min', 'max': 'max', 'any': 'any', 'all': 'all',
        'astype': None, 'argmin': 'argmin', 'argsort': 'argsort'}


@kind
def np_functions(tree):
    """x.sum(..) as np.sum(x, ..)"""
    if not any(isinstance(n, ast.alias) and n.asname == 'np'
               for n in ast.walk(tree)):
        return tree

    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and METH.get(
                    n.func.attr) and not (isinstance(
                        n.func.value, ast.Name) and n.func.value.id in (
                            'np', 'self')) and not n.args:
                return ast.Call(ast.Attribute(L('np'), n.func.attr,
                                              ast.Load()),
                                [n.func.value], n.keywords)
            return n
    return X().visit(tree)


@kind
def np_methods(tree):
    """np.sum(x, ..) as x.sum(..), where x is known to be an array."""
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and METH.get(
                    n.func.attr) and isinstance(
                        n.func.value, ast.Name) and \
                    n.func.value.id == 'np' and isinstance(
                        n.args[0], (ast.BinOp, ast.Compare)):
                return ast.Call(ast.Attribute(n.args[0], n.func.attr,
                                              ast.Load()),
                                n.args[1:], n.keywords)
            return n
    return X().visit(tree)


@kind
def from_numpy(tree):
    used = set()

    class X(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == 'np':
                used.add(n.attr)
                return ast.Name('np_' + n.attr, n.ctx)
            return n
    tree = X().visit(tree)
    i = max([k for k, s in enumerate(tree.body) if isinstance(
        s, (ast.Import, ast.ImportFrom))] + [-1]) + 1
    for u in sorted(used):
        if u in ('linalg', 'random'):
            tree.body.insert(i, ast.Import([ast.alias(
                'numpy.' + u, None)]))
        tree.body.insert(i, ast.ImportFrom('numpy', [ast.alias(
            u, 'np_' + u)], 0))
    return tree


@kind
def numpy_name(tree):
    class X(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id == 'np':
                n.id = 'numpy'
            return n

        def visit_alias(self, n):
            if n.name == 'numpy' and n.asname == 'np':
                n.asname = None
            return n
    return X().visit(tree)


@kind
def newaxis(tree):
    class X(ast.NodeTransformer):
        def visit_Subscript(self, n):
            self.generic_visit(n)
            if isinstance(n.slice, ast.Tuple):
                for i, e in enumerate(n.slice.elts):
                    if isinstance(e, ast.Constant) and e.value is None:
                        n.slice.elts[i] = ast.Attribute(
                            L('np'), 'newaxis', ast.Load())
            return n
    return X().visit(tree)


@kind
def format_call(tree):
    """'..%d..' % x as a formatted string."""
    import re

    class X(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mod) and isinstance(
                    n.left, ast.Constant) and isinstance(n.left.value, str):
                s = n.left.value
                a = n.right.elts if isinstance(n.right, ast.Tuple) else [
                    n.right]
                ps = re.split(r'(%[.0-9]*[a-z])', s)
                sp = ps[1::2]
                if '%%' in s or len(sp) != len(a):
                    return n
                out = []
                for i, p in enumerate(ps):
                    if i % 2 == 0:
                        if p:
                            out.append(ast.Constant(p))
                        continue
                    e = a[i // 2]
                    if p == '%s':
                        out.append(ast.FormattedValue(e, -1, None))
                    elif p == '%d':
                        out.append(ast.FormattedValue(ast.Call(
                            L('int'), [e], []), -1, None))
                    else:
                        out.append(ast.FormattedValue(
                            e, -1, ast.JoinedStr([ast.Constant(p[1:])])))
                return ast.JoinedStr(out)
            return n
    return X().visit(tree)


@kind
def unpack(tree):
    """a, b = x, y one after the other; a, b = f() by numbers."""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.Assign) and isinstance(
                    st.targets[0], ast.Tuple) and not any(
                        isinstance(e, ast.Starred)
                        for e in st.targets[0].elts):
                ts = st.targets[0].elts
                if isinstance(st.value, ast.Tuple):
                    ns = [name('u') for t in ts]
                    return [assign(n, v) for n, v in zip(
                        ns, st.value.elts)] + [
                            ast.Assign([t], L(n)) for t, n in zip(ts, ns)]
                n = name('u')
                return [assign(n, st.value)] + [ast.Assign([t], ast.Subscript(
                    L(n), ast.Constant(i), ast.Load()))
                    for i, t in enumerate(ts)]
    return X().visit(tree)


@kind
def enumerate_loop(tree):
    """for i, x in enumerate(xs) with a counter."""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and \
                    isinstance(st.iter.func, ast.Name) and \
                    st.iter.func.id == 'enumerate' and isinstance(
                        st.target, ast.Tuple) and not any(
                            isinstance(n, ast.Continue) for s in st.body
                            for n in ast.walk(s)):
                i, x = st.target.elts
                t = name('n')
                return [assign(t, ast.Constant(0)), ast.For(
                    x, st.iter.args[0], [ast.Assign([i], L(t))] + st.body + [
                        ast.AugAssign(S(t), ast.Add(), ast.Constant(1))], [])]
    return X().visit(tree)


@kind
def index_loop(tree):
    """for x in <name>: by position, for lists given as arguments."""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Name) and \
                    st.iter.id in ('analysers', 'trajs', 'prim_traj',
                                   'secondary_trajects', 'trajects', 'keys',
                                   'trajectories', 'traj_list'):
                i = name('k')
                return [ast.For(S(i), ast.Call(L('range'), [ast.Call(
                    L('len'), [st.iter], [])], []), [ast.Assign(
                        [st.target], ast.Subscript(
                            st.iter, L(i), ast.Load()))] + st.body, [])]
    return X().visit(tree)


@kind
def nothing(tree):
    """Statements that do nothing."""
    for fn in functions(tree):
        d = doc(fn.body)
        fn.body = d + [assign(name('z'), ast.Constant(None))] + \
            fn.body[len(d):]
    return tree


@kind
def asserts(tree):
    """Assertions that hold."""
    for fn in functions(tree):
        d = doc(fn.body)
        fn.body = d + [ast.Assert(ast.Constant(True), None)] + \
            fn.body[len(d):]
    return tree


@kind
def try_finally(tree):
    """Bodies in try/finally with nothing to do at the end."""
    for fn in functions(tree):
        if fn.name.startswith('__'):
            continue
        d = doc(fn.body)
        r = fn.body[len(d):]
        if r:
            fn.body = d + [ast.Try(r, [], [], [ast.Pass()])]
    return tree


@kind
def constants(tree):
    """Numbers of functions as constants of the module."""
    ns = {}
    for fn in functions(tree):
        for n in ast.walk(fn):
            for f, v in ast.iter_fields(n):
                vs = v if isinstance(v, list) else [v]
                for j, c in enumerate(vs):
                    if isinstance(c, ast.Constant) and isinstance(
                            c.value, (int, float)) and not isinstance(
                                c.value, bool) and not isinstance(
                                    n, ast.arguments):
                        k = ns.setdefault(repr(c.value), '_NUM%d' % len(ns))
                        if isinstance(v, list):
                            v[j] = L(k)
                        else:
                            setattr(n, f, L(k))
    i = max([k for k, s in enumerate(tree.body) if isinstance(
        s, (ast.Import, ast.ImportFrom))] + [-1]) + 1
    for r, k in ns.items():
        tree.body.insert(i, assign(k, ast.parse(r, mode='eval').body))
    return tree


@kind
def strings(tree):
    """Strings used in subscripts and comparisons as constants."""
    ns = {}
    for fn in functions(tree):
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.slice, ast.Constant) and isinstance(
                        n.slice.value, str):
                k = ns.setdefault(n.slice.value, '_STR%d' % len(ns))
                n.slice = L(k)
            if isinstance(n, ast.Call):
                for j, c in enumerate(n.args):
                    if isinstance(c, ast.Constant) and isinstance(
                            c.value, str):
                        k = ns.setdefault(c.value, '_STR%d' % len(ns))
                        n.args[j] = L(k)
    i = max([k for k, s in enumerate(tree.body) if isinstance(
        s, (ast.Import, ast.ImportFrom))] + [-1]) + 1
    for r, k in ns.items():
        tree.body.insert(i, assign(k, ast.Constant(r)))
    return tree


@kind
def binop_temps(tree):
    """Each operation into a variable."""
    class E(ast.NodeTransformer):
        def __init__(self):
            self.pre = []

        def visit_BinOp(self, n):
            for f in ('left', 'right'):
                x = getattr(n, f)
                if isinstance(x, (ast.BinOp, ast.Call)) and not any(
                        isinstance(y, (ast.Lambda, ast.comprehension))
                        for y in ast.walk(x)):
                    x = self.visit(x)
                    t = name('o')
                    self.pre.append(assign(t, x))
                    setattr(n, f, L(t))
            return n

        def visit_Lambda(self, n):
            return n

        visit_ListComp = visit_GeneratorExp = visit_DictComp = visit_IfExp = \
            visit_BoolOp = visit_Lambda

    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, (ast.Assign, ast.Return)) and \
                    st.value is not None:
                e = E()
                st.value = e.visit(st.value)
                return e.pre + [st]
    return X().visit(tree)


@kind
def aug_plain(tree):
    """n += 1, s += text as assignments (not arrays)."""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.AugAssign) and isinstance(
                    st.target, ast.Name) and (isinstance(
                        st.value, ast.Constant) or any(
                            isinstance(n, ast.Constant) and isinstance(
                                n.value, str) for n in ast.walk(st.value))):
                return [assign(st.target.id, ast.BinOp(
                    L(st.target.id), st.op, st.value))]
    return X().visit(tree)


@kind
def kwargs_call(tree):
    """Arguments of the package's functions by their names."""
    sig = {}
    for m, (f, t) in SRC.items():
        for n in t.body:
            if isinstance(n, ast.FunctionDef) and not n.args.vararg:
                sig[n.name] = [a.arg for a in n.args.args]

    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in sig and \
                    not any(isinstance(a, ast.Starred) for a in n.args) and \
                    len(n.args) > 1:
                s = sig[n.func.id]
                if len(s) >= len(n.args):
                    n.keywords = [ast.keyword(k, a) for k, a in zip(
                        s[1:], n.args[1:])] + n.keywords
                    n.args = n.args[:1]
            return n
    return X().visit(tree)


@kind
def super_self(tree):
    """self named this."""
    for fn in functions(tree):
        if fn.args.args and fn.args.args[0].arg == 'self':
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n.id == 'self':
                    n.id = 'this'
                if isinstance(n, ast.arg) and n.arg == 'self':
                    n.arg = 'this'
    return tree


@kind
def private_attrs(tree):
    """Private attributes (one underscore) under other names."""
    ns = set()
    for m, (f, t) in SRC.items():
        if not m.endswith(('.scene', '.an_scene', '.sequence',
                           '.interpolation', '.analysis')):
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and n.attr.startswith('_') and \
                    not n.attr.startswith('__'):
                ns.add(n.attr)
    if any(isinstance(n, ast.ClassDef) and n.name in (
            'Trajectory', 'ParticleSet') for n in ast.walk(tree)):
        return tree
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr in ns:
            n.attr = '_my' + n.attr
    return tree


@kind
def reorder_defs(tree):
    """Methods and functions in another order."""
    for n in ast.walk(tree):
        if isinstance(n, (ast.ClassDef, ast.Module)):
            fs = [s for s in n.body if isinstance(s, ast.FunctionDef) and
                  not s.decorator_list]
            if len(set(f.name for f in fs)) == len(fs) and not any(
                    isinstance(s, (ast.Assign, ast.Expr, ast.If))
                    and not (isinstance(s, ast.Expr) and isinstance(
                        s.value, ast.Constant))
                    for s in n.body):
                ix = [i for i, s in enumerate(n.body) if s in fs]
                for i, f in zip(ix, reversed(fs)):
                    n.body[i] = f
    return tree


@kind
def with_files(tree):
    return tree


@kind
def while_loop(tree):
    """for i in range(a, b) as a while loop."""
    class X(Stmts):
        def stmt(self, st):
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and \
                    isinstance(st.iter.func, ast.Name) and \
                    st.iter.func.id == 'range' and \
                    len(st.iter.args) in (1, 2) and not any(isinstance(
                        a, ast.Starred) for a in st.iter.args) and isinstance(
                        st.target, ast.Name) and not any(
                            isinstance(n, ast.Continue) for s in st.body
                            for n in ast.walk(s)):
                a = st.iter.args
                lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
                i, e = name('w'), name('e')
                return [assign(e, hi), assign(i, lo), ast.While(
                    ast.Compare(L(i), [ast.Lt()], [L(e)]),
                    [assign(st.target.id, L(i))] + st.body + [ast.AugAssign(
                        S(i), ast.Add(), ast.Constant(1))], [])]
    return X().visit(tree)


def transform(f):
    src = {}
    for m, (p, t) in SRC.items():
        N[0] = 0
        t2 = f(copy.deepcopy(t))
        ast.fix_missing_locations(t2)
        text = ast.unparse(t2)
        src[m] = (p, ast.parse(text))
    return src


def one(job):
    k, i = job
    src = transform(KINDS[k])
    out = []
    n = 0
    for o in oblig.REG[i::8]:
        v = oblig.run(o, src)
        n += 1
        if v.status != 'eq':
            out.append((v.status, o.prop, o.name, str(v.why)[:70]))
    if i == 0:
        for p, nm, f in findings.RULES:
            r = f(src)
            for x in r.findings:
                if (p, x.key) not in KN:
                    out.append(('diff', p, nm, x.text[:90]))
    return k, n, out


if __name__ == '__main__':
    if sys.argv[1:2] == ['-p']:
        src = transform(KINDS[sys.argv[2]])
        for m in src:
            if m.endswith(sys.argv[3]):
                print(ast.unparse(src[m][1]))
        sys.exit()
    ks = [a for a in sys.argv[1:] if a != '-v'] or list(KINDS)
    jobs = [(k, i) for k in ks for i in range(8)]
    res = {}
    with Pool(8) as pool:
        for k, n, out in pool.imap(one, jobs):
            r = res.setdefault(k, [0, [], 0])
            r[0] += n
            r[1] += out
            r[2] += 1
            if r[2] == 8:
                d = [x for x in r[1] if x[0] == 'diff']
                u = [x for x in r[1] if x[0] == 'und']
                print('%-5s %-15s %d obligations, %d undecided' % (
                    'DIFF' if d else 'ok', k, r[0], len(u)), flush=True)
                for x in d:
                    print('    ', x)
                if '-v' in sys.argv:
                    for x in u:
                        print('    ', x)
