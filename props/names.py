"""
X01: names, attributes and arguments.  Resolves every name, attribute of a
module, attribute of an object of the package and call of one of its functions
in the current source; nothing is imported from the package.
"""
import ast
import builtins
import glob as _glob
import os
import sys

from vsa.findings import rule, Finding, Outcome

STAR = '*'
NDARRAY = set('''T all any argmax argmin argpartition argsort astype base
byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data
diagonal dot dtype dump dumps fill flags flat flatten getfield imag item
itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod
ptp put ravel real repeat reshape resize round searchsorted setfield setflags
shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist
tostring trace transpose var view'''.split())


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.names = {}     # name -> ('mod', m) ('from', m, n) ('def', node)
        #                     ('class', Class) ('var',)
        self.stars = []
        self.classes = {}


class Class(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.attrs = {}, set()
        self.dynamic = False
        self.bases = node.bases


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            for x in targets(e):
                yield x
    elif isinstance(t, ast.Starred):
        for x in targets(t.value):
            yield x


FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(node):
    """Nodes of a scope's body that belong to it and not to inner ones."""
    if isinstance(node, ast.Lambda):
        todo = [node.body]
    elif isinstance(node, COMP):
        todo = []
    else:
        todo = list(node.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, FUNC):
            todo.extend(x.args.defaults)
            todo.extend(d for d in x.args.kw_defaults if d is not None)
            if not isinstance(x, ast.Lambda):
                todo.extend(x.decorator_list)
            continue
        if isinstance(x, ast.ClassDef):
            todo.extend(x.bases + x.decorator_list)
            continue
        if isinstance(x, COMP):
            todo.append(x.generators[0].iter)
            continue
        todo.extend(ast.iter_child_nodes(x))


def bound(node):
    """Names a scope binds."""
    out, glob_, nonl = set(), set(), set()
    if isinstance(node, FUNC):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            out.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                out.add(x.arg)
    if isinstance(node, COMP):
        for g in node.generators:
            out.update(targets(g.target))
        return out, glob_, nonl
    for x in own(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef,
                            ast.AsyncFunctionDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                if al.name != '*':
                    out.add(al.asname or al.name.split('.')[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.Global):
            glob_.update(x.names)
        elif isinstance(x, ast.Nonlocal):
            nonl.update(x.names)
        elif isinstance(x, COMP):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    out.update(targets(y.target))
        elif type(x).__name__ in ('MatchAs', 'MatchStar') and x.name:
            out.add(x.name)
    return out - glob_ - nonl, glob_, nonl


# ------------------------------------------------ modules that are installed
_ext = {}


def site():
    for p in sorted(_glob.glob('/opt/venv/lib/python3*/site-packages')):
        return p
    return None


def ext_names(mod, depth=0):
    """
    Names an installed module has, read from its stub or source; None if that
    cannot be told.
    """
    if mod in _ext:
        return _ext[mod]
    _ext[mod] = None
    top = mod.split('.')[0]
    if top in sys.builtin_module_names or top in sys.stdlib_module_names:
        import importlib
        try:
            _ext[mod] = set(dir(importlib.import_module(mod)))
        except Exception:
            _ext[mod] = None
        return _ext[mod]
    s = site()
    if s is None or depth > 4:
        return None
    base = os.path.join(s, *mod.split('.'))
    for p in (base + '/__init__.pyi', base + '.pyi', base + '/__init__.py',
              base + '.py'):
        if os.path.exists(p):
            break
    else:
        return None
    try:
        with open(p, encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except (SyntaxError, ValueError):
        return None
    out = set(['__name__', '__doc__', '__file__', '__version__', '__path__'])
    todo = list(tree.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            if x.name == '__getattr__':
                return None
            out.add(x.name)
        elif isinstance(x, ast.Import):
            for al in x.names:
                out.add(al.asname or al.name.split('.')[0])
        elif isinstance(x, ast.ImportFrom):
            for al in x.names:
                if al.name != '*':
                    out.add(al.asname or al.name)
                    continue
                b = mod if p.endswith(('__init__.py', '__init__.pyi')) or \
                    not x.level else mod.rpartition('.')[0]
                for _ in range((x.level or 1) - 1):
                    b = b.rpartition('.')[0]
                m = (b + '.' + x.module if x.module else b) if x.level else \
                    x.module
                n = ext_names(m, depth + 1)
                if n is None:
                    return None
                out |= n
        else:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    out.add(y.id)
                elif isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                    out.add(y.name)
                elif isinstance(y, (ast.Import, ast.ImportFrom)):
                    if any(al.name == '*' for al in y.names):
                        return None
                    for al in y.names:
                        out.add(al.asname or al.name.split('.')[0])
    d = os.path.dirname(p)
    if p.endswith(('__init__.py', '__init__.pyi')):
        for n in os.listdir(d):
            if n.endswith(('.py', '.pyi', '.so')):
                out.add(n.split('.')[0])
            elif os.path.isdir(os.path.join(d, n)):
                out.add(n)
    _ext[mod] = out
    return out


# ------------------------------------------------------------- the package
class World(object):
    def __init__(self, sources):
        self.mods = {}
        for name, (path, tree) in sources.items():
            self.mods[name] = m = Module(name, path, tree)
            self.scan(m)
        self.methods = {}
        for m in self.mods.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.methods.setdefault(n, []).append((c, f))
        # names accessors are made of at run time
        self.attrnames = set()
        made = any(c.dynamic for m in self.mods.values()
                   for c in m.classes.values())
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if made and isinstance(x, ast.Constant) and \
                        isinstance(x.value, str):
                    self.attrnames.add(x.value)
                elif made and isinstance(x, ast.keyword) and x.arg:
                    self.attrnames.add(x.arg)
                if isinstance(x, ast.Attribute) and \
                        isinstance(x.ctx, ast.Store):
                    self.attrnames.add(x.attr)

    def absolute(self, m, node):
        if not node.level:
            return node.module
        b = m.name if m.path.endswith('__init__.py') else \
            m.name.rpartition('.')[0]
        for _ in range(node.level - 1):
            b = b.rpartition('.')[0]
        return b + '.' + node.module if node.module else b

    def scan(self, m):
        for x in own(m.tree):
            if isinstance(x, ast.Import):
                for al in x.names:
                    if al.asname:
                        m.names[al.asname] = ('mod', al.name)
                    else:
                        m.names[al.name.split('.')[0]] = (
                            'mod', al.name.split('.')[0])
            elif isinstance(x, ast.ImportFrom):
                b = self.absolute(m, x)
                for al in x.names:
                    if al.name == '*':
                        m.stars.append(b)
                    else:
                        m.names[al.asname or al.name] = ('from', b, al.name)
            elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.names[x.name] = ('var',) if x.name in m.names or \
                    x.decorator_list else ('def', x, m)
            elif isinstance(x, ast.ClassDef):
                c = Class(m, x)
                m.classes[x.name] = c
                m.names[x.name] = ('class', c)
                self.scan_class(c)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                m.names[x.id] = ('var',)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                m.names[x.name] = ('var',)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                for n in x.names:
                    m.names.setdefault(n, ('var',))

    def scan_class(self, c):
        for x in c.node.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.attrs.add(x.name)
                c.methods[x.name] = x
                if x.name in ('__getattr__', '__getattribute__',
                              '__setattr__'):
                    c.dynamic = True
                a = x.args.posonlyargs + x.args.args
                me = a[0].arg if a else None
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and \
                            isinstance(y.value, ast.Name) and \
                            y.value.id == me:
                        if isinstance(y.ctx, ast.Store):
                            c.attrs.add(self.mangle(c, y.attr))
                        elif y.attr == '__dict__':
                            c.dynamic = True
                    elif isinstance(y, ast.Call) and \
                            isinstance(y.func, ast.Name) and \
                            y.func.id in ('setattr', 'vars', 'globals',
                                          'exec'):
                        c.dynamic = True
            else:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and \
                            isinstance(y.ctx, ast.Store):
                        c.attrs.add(y.id)
                    elif isinstance(y, ast.ClassDef):
                        c.attrs.add(y.name)
        if c.node.decorator_list or c.node.keywords:
            c.dynamic = True

    @staticmethod
    def mangle(c, n):
        if n.startswith('__') and not n.endswith('__'):
            return '_' + c.name.lstrip('_') + n
        return n

    def export(self, mod, name, seen=()):
        """What a name of a module is; None if there is none of it."""
        if (mod, name) in seen:
            return ('var',)
        seen = tuple(seen) + ((mod, name),)
        m = self.mods.get(mod)
        if m is None:
            if (mod + '.' + name) in self.mods:
                return ('mod', mod + '.' + name)
            if mod.split('.')[0] in ('flowtracks', 'scripts'):
                return None
            e = ext_names(mod)
            if e is None or name in e:
                return ('ext',)
            return ('ext',) if ext_names(mod + '.' + name) is not None \
                else None
        if name in m.names:
            b = m.names[name]
            if b[0] == 'from':
                return self.export(b[1], b[2], seen)
            return b
        if (mod + '.' + name) in self.mods:
            return ('mod', mod + '.' + name)
        unknown = False
        for s in m.stars:
            if s in self.mods:
                if not name.startswith('_'):
                    r = self.export(s, name, seen)
                    if r is not None:
                        return r
            else:
                e = ext_names(s)
                if e is None:
                    unknown = True
                elif name in e:
                    return ('ext',)
        if unknown or name in ('__name__', '__file__', '__doc__',
                               '__builtins__', '__path__', '__package__',
                               '__spec__', '__loader__'):
            return ('var',)
        return None

    def bases(self, c, seen=()):
        """Classes of the package above this one; None if one is unknown."""
        out = []
        for b in c.bases:
            if isinstance(b, ast.Name):
                if b.id == 'object':
                    continue
                r = self.export(c.mod.name, b.id)
                if r is not None and r[0] == 'class':
                    if r[1] in seen:
                        return None
                    up = self.bases(r[1], tuple(seen) + (c,))
                    if up is None:
                        return None
                    out += [r[1]] + up
                    continue
            return None
        return out

    def subclasses(self, c):
        out = []
        for m in self.mods.values():
            for d in m.classes.values():
                if d is not c and c in (self.bases(d) or []):
                    out.append(d)
        return out

    def find_method(self, c, n):
        for k in [c] + (self.bases(c) or []):
            if n in k.methods:
                return k, k.methods[n]
        return None


def fits(f, node, skip):
    """Whether a call gives a function the arguments it takes: '' or why not.
    """
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    ponly = set([x.arg for x in a.posonlyargs][skip:])
    if any(isinstance(x, ast.Starred) for x in node.args) or \
            any(k.arg is None for k in node.keywords):
        kw = [k.arg for k in node.keywords if k.arg is not None]
        if a.kwarg is None:
            for k in kw:
                if k not in pos and k not in [x.arg for x in a.kwonlyargs]:
                    return 'no argument %s' % k
        n = len([x for x in node.args if not isinstance(x, ast.Starred)])
        if n > len(pos) and a.vararg is None:
            return 'too many arguments'
        return ''
    n = len(node.args)
    if n > len(pos) and a.vararg is None:
        return '%d arguments where %d can be given' % (n, len(pos))
    got = set(pos[:n])
    for k in node.keywords:
        if k.arg in got:
            return 'argument %s given twice' % k.arg
        if k.arg in pos and k.arg not in ponly:
            got.add(k.arg)
        elif k.arg in [x.arg for x in a.kwonlyargs]:
            got.add(k.arg)
        elif a.kwarg is None:
            return 'no argument %s' % k.arg
    nd = len(a.defaults)
    need = [x.arg for x in a.posonlyargs + a.args][skip:]
    if nd:
        need = need[:-nd] if nd < len(need) else []
    for x in need:
        if x not in got:
            return 'argument %s is not given' % x
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in got:
            return 'argument %s is not given' % x.arg
    return ''


BUILTIN_ATTRS = set()
for _t in (str, list, dict, set, frozenset, tuple, int, float, bytes, slice,
           type(lambda: 0), type(open(os.devnull)), type, object, complex,
           range, type(iter([])), type((x for x in []))):
    BUILTIN_ATTRS.update(dir(_t))


class Walk(object):
    def __init__(self, w, m):
        self.w, self.m = w, m
        self.out = []
        self.n = {'names': 0, 'attributes of modules': 0,
                  'attributes of objects': 0, 'calls': 0,
                  'uses of variables after branches': 0}

    def bad(self, node, func, what):
        self.out.append((node, func, what))

    def scope(self, node, outer, func, cls):
        """outer - list of (bound names, node), innermost last."""
        if isinstance(node, ast.Module):
            names = set()
        else:
            names, gl, nl = bound(node)
        chain = outer + [(names, node)]
        if isinstance(node, COMP):
            for i, g in enumerate(node.generators):
                if i:
                    self.expr(g.iter, chain, func, cls)
                for x in g.ifs:
                    self.expr(x, chain, func, cls)
            if isinstance(node, ast.DictComp):
                self.expr(node.key, chain, func, cls)
                self.expr(node.value, chain, func, cls)
            else:
                self.expr(node.elt, chain, func, cls)
            return
        if isinstance(node, ast.Lambda):
            self.expr(node.body, chain, func, cls)
            return
        for st in node.body:
            self.expr(st, chain, func, cls)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.assigned(node, names - argnames(node), func)

    def expr(self, node, chain, func, cls):
        todo = [node]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda)):
                todo.extend(x.args.defaults)
                todo.extend(d for d in x.args.kw_defaults if d is not None)
                f = func
                if not isinstance(x, ast.Lambda):
                    todo.extend(x.decorator_list)
                    f = (func + '.' if func else '') + x.name
                ch = [c for c in chain if not isinstance(c[1], ast.ClassDef)]
                self.scope(x, ch, f, cls)
                continue
            if isinstance(x, ast.ClassDef):
                todo.extend(x.bases + x.decorator_list)
                c = self.m.classes.get(x.name) \
                    if isinstance(chain[-1][1], ast.Module) else None
                self.scope(x, chain, (func + '.' if func else '') + x.name,
                           c)
                continue
            if isinstance(x, COMP):
                self.expr(x.generators[0].iter, chain, func, cls)
                self.scope(x, chain, func, cls)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.name(x, chain, func)
            elif isinstance(x, ast.Attribute):
                self.attribute(x, chain, func, cls)
            elif isinstance(x, ast.Call):
                self.call(x, chain, func, cls)
            elif isinstance(x, ast.ImportFrom):
                self.imported(x, func)
            todo.extend(ast.iter_child_nodes(x))

    def local(self, n, chain):
        return any(n in names for names, nd in chain
                   if not isinstance(nd, ast.Module))

    def name(self, x, chain, func):
        self.n['names'] += 1
        n = x.id
        if self.local(n, chain) or hasattr(builtins, n):
            return
        if self.w.export(self.m.name, n) is None:
            self.bad(x, func, 'name %s is not defined' % n)

    def imported(self, x, func):
        b = self.w.absolute(self.m, x)
        for al in x.names:
            self.n['names'] += 1
            if al.name == '*':
                continue
            if self.w.export(b, al.name) is None:
                self.bad(x, func, '%s has no %s' % (b, al.name))

    def resolve(self, x, chain):
        """What an expression of names and dots is."""
        if isinstance(x, ast.Name):
            if self.local(x.id, chain):
                return None
            return self.w.export(self.m.name, x.id)
        if isinstance(x, ast.Attribute):
            r = self.resolve(x.value, chain)
            if r is not None and r[0] == 'mod':
                return self.w.export(r[1], x.attr) or ('missing', r[1])
            if r is not None and r[0] == 'class' and \
                    x.attr in r[1].methods:
                return None
        return None

    def extmod(self, x, chain):
        """The module outside the package an expression is."""
        if isinstance(x, ast.Name):
            if self.local(x.id, chain):
                return None
            b = self.m.names.get(x.id)
            if b is not None and b[0] == 'mod' and \
                    b[1] not in self.w.mods and \
                    b[1].split('.')[0] not in ('flowtracks', 'scripts'):
                return b[1]
            if b is not None and b[0] == 'from' and b[1] not in self.w.mods:
                n = b[1] + '.' + b[2]
                if b[1].split('.')[0] not in ('flowtracks', 'scripts') and \
                        n.split('.')[0] not in self.w.mods and \
                        site() and (os.path.isdir(os.path.join(
                            site(), *n.split('.'))) or n == 'os.path'):
                    return n
        if isinstance(x, ast.Attribute):
            m = self.extmod(x.value, chain)
            if m is not None:
                n = m + '.' + x.attr
                if n == 'os.path':
                    return n
                s = site()
                if s and (os.path.isdir(os.path.join(s, *n.split('.'))) or
                          os.path.exists(os.path.join(s, *n.split('.')) +
                                         '.py')):
                    return n
        return None

    def attribute(self, x, chain, func, cls):
        r = self.resolve(x, chain)
        if r is not None and r[0] == 'missing':
            self.n['attributes of modules'] += 1
            self.bad(x, func, 'module %s has no %s' % (r[1], x.attr))
            return
        m = self.extmod(x.value, chain)
        if m is not None:
            self.n['attributes of modules'] += 1
            e = ext_names(m)
            if e is not None and x.attr not in e and \
                    ext_names(m + '.' + x.attr) is None and \
                    not self.extmod(x, chain):
                self.bad(x, func, 'module %s has no %s' % (m, x.attr))
            return
        if cls is not None and isinstance(x.value, ast.Name) and \
                isinstance(x.ctx, ast.Load) and self.me(x.value.id, chain):
            self.n['attributes of objects'] += 1
            up = self.w.bases(cls)
            if up is None:
                return
            fam = [cls] + up + self.w.subclasses(cls)
            if any(c.dynamic for c in fam):
                return
            n = self.w.mangle(cls, x.attr)
            if not any(n in c.attrs for c in fam) and \
                    not hasattr(object, n) and \
                    n not in ('__dict__', '__module__'):
                # set from outside, on objects of whatever class
                if x.attr in self.w.attrnames and not x.attr.startswith(
                        '__') and self.outside(x.attr, fam):
                    return
                self.bad(x, func, 'objects of %s have no %s' % (cls.name,
                                                                x.attr))
            return
        if isinstance(x.ctx, ast.Load) and x.attr.startswith('__') and \
                not x.attr.endswith('__') and cls is not None:
            return

    def outside(self, attr, fam):
        for m in self.w.mods.values():
            for y in ast.walk(m.tree):
                if isinstance(y, ast.Attribute) and y.attr == attr and \
                        isinstance(y.ctx, ast.Store) and not (
                            isinstance(y.value, ast.Name) and
                            y.value.id == 'self'):
                    return True
        return False

    def me(self, n, chain):
        """Whether a name is the object of the method it is in."""
        for names, nd in reversed(chain):
            if n in names:
                if not isinstance(nd, (ast.FunctionDef,
                                       ast.AsyncFunctionDef)):
                    return False
                if nd.decorator_list:
                    return False
                a = nd.args.posonlyargs + nd.args.args
                if not a or a[0].arg != n:
                    return False
                # a method, and the name is not given another value
                i = [c[1] for c in chain].index(nd)
                if not any(y is nd for c in self.m.classes.values()
                           for y in c.methods.values()):
                    return False
                return not any(isinstance(y, ast.Name) and y.id == n and
                               isinstance(y.ctx, ast.Store)
                               for y in ast.walk(nd))
        return False

    def call(self, x, chain, func, cls):
        f = x.func
        r = self.resolve(f, chain)
        why = None
        if r is not None and r[0] == 'def':
            self.n['calls'] += 1
            why = fits(r[1], x, 0)
            what = r[1].name
        elif r is not None and r[0] == 'class':
            c = r[1]
            if self.w.bases(c) is None or c.node.decorator_list or \
                    c.node.keywords:
                return
            if self.w.find_method(c, '__new__'):
                return
            self.n['calls'] += 1
            i = self.w.find_method(c, '__init__')
            what = c.name
            if i is None:
                why = 'no arguments are taken' if x.args or x.keywords \
                    else ''
            elif i[1].decorator_list:
                return
            else:
                why = fits(i[1], x, 1)
        elif isinstance(f, ast.Attribute):
            what = f.attr
            cands = []
            if cls is not None and isinstance(f.value, ast.Name) and \
                    self.me(f.value.id, chain):
                n = self.w.mangle(cls, f.attr)
                if any(n in k.attrs and f.attr not in k.methods
                       for k in [cls] + (self.w.bases(cls) or []) +
                       self.w.subclasses(cls)):
                    return
                h = self.w.find_method(cls, f.attr)
                if h is not None:
                    cands = [h] + [(k, k.methods[f.attr]) for k in
                                   self.w.subclasses(cls)
                                   if f.attr in k.methods]
            elif isinstance(f.value, ast.Call) and \
                    isinstance(f.value.func, ast.Name) and \
                    f.value.func.id == 'super' and cls is not None:
                for k in self.w.bases(cls) or []:
                    if f.attr in k.methods:
                        cands = [(k, k.methods[f.attr])]
                        break
            else:
                t = self.resolve(f.value, chain)
                if t is not None and t[0] == 'class':
                    h = self.w.find_method(t[1], f.attr)
                    if h is None or h[1].decorator_list:
                        return
                    self.n['calls'] += 1
                    why = fits(h[1], x, 0)
                    if why:
                        self.bad(x, func, 'call of %s.%s: %s' % (
                            t[1].name, f.attr, why))
                    return
                if t is not None or self.extmod(f.value, chain):
                    return
                if f.attr in BUILTIN_ATTRS or f.attr in NDARRAY or \
                        f.attr in self.w.attrnames or \
                        f.attr.startswith('__'):
                    return
                cands = self.w.methods.get(f.attr, [])
                if not cands or foreign(f.attr):
                    return
            if not cands or any(g.decorator_list for _, g in cands):
                return
            self.n['calls'] += 1
            whys = [fits(g, x, 1) for _, g in cands]
            if all(whys):
                why = whys[0]
        if why:
            self.bad(x, func, 'call of %s: %s' % (what, why))

    # ----------------------------------------------- variables without value
    def assigned(self, fn, names, func):
        """
        Names used where, on a way through the branches before, they have no
        value: an if/else gives it in one arm only, the other goes on, and
        the use follows in the same block.
        """
        gl = set()
        for x in ast.walk(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                gl.update(x.names)
        names = set(names) - gl
        st = State(self, fn, names, func)
        st.block(fn.body, dict((n, 'no') for n in names))


def argnames(fn):
    a = fn.args
    out = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    return out


_foreign = {}
LIBS = ('tables', 'numpy', 'scipy', 'matplotlib')


def foreign(n):
    """Whether a method of that name belongs to a library in use as well."""
    if n in _foreign:
        return _foreign[n]
    if not _foreign.get(None):
        _foreign[None] = f = set()
        s = site()
        if s:
            for p in _glob.glob(s + '/tables/*.py'):
                try:
                    with open(p, encoding='utf-8') as fh:
                        t = ast.parse(fh.read())
                except (SyntaxError, ValueError):
                    continue
                for x in ast.walk(t):
                    if isinstance(x, ast.FunctionDef):
                        f.add(x.name)
                    elif isinstance(x, ast.Attribute):
                        f.add(x.attr)
        import configparser
        f.update(dir(configparser.ConfigParser))
    _foreign[n] = n in _foreign[None]
    return _foreign[n]


class State(object):
    """
    'no': without a value on every way here; 'arm': without one on a way
    that a single if decides; 'maybe': not known; 'yes': has one.
    """
    def __init__(self, walk, fn, names, func):
        self.w, self.fn, self.names, self.func = walk, fn, names, func
        self.told = set()
        self.never = set()

    def uses(self, node, s):
        if node is None:
            return
        todo = [(node, False)]
        while todo:
            x, cond = todo.pop()
            if isinstance(x, FUNC + COMP):
                if isinstance(x, COMP):
                    todo.append((x.generators[0].iter, cond))
                else:
                    todo.extend((d, cond) for d in x.args.defaults)
                continue
            if isinstance(x, ast.IfExp):
                todo.extend([(x.test, cond), (x.body, True),
                             (x.orelse, True)])
                continue
            if isinstance(x, ast.BoolOp):
                todo.append((x.values[0], cond))
                todo.extend((y, True) for y in x.values[1:])
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and \
                    x.id in s:
                self.w.n['uses of variables after branches'] += 1
                v = s[x.id]
                if v == 'arm' and cond:
                    continue
                if v in ('no', 'arm') and x.id not in self.told:
                    self.told.add(x.id)
                    self.w.bad(x, self.func,
                               'variable %s has no value here%s' % (
                                   x.id, '' if v == 'no' else
                                   ' when a branch before is not taken'))
            todo.extend((y, cond) for y in ast.iter_child_nodes(x))
        for x in ast.walk(node):
            if isinstance(x, ast.NamedExpr):
                for t in targets(x.target):
                    if t in s:
                        s[t] = 'maybe' if s[t] != 'yes' else 'yes'

    def gives(self, t, s):
        for n in targets(t):
            if n in s:
                s[n] = 'yes'

    def block(self, body, s):
        """State after the statements, None if it is never reached."""
        for st in body:
            s = self.stmt(st, s)
            if s is None:
                return None
        return s

    def merge(self, a, b, one=False):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for n in a:
            x, y = a[n], b[n]
            if x == y:
                out[n] = x
            elif 'maybe' in (x, y):
                out[n] = 'maybe'
            else:
                out[n] = 'arm' if one else 'maybe'
        return out

    def soften(self, before, after):
        out = {}
        for n in before:
            out[n] = before[n] if after[n] == before[n] else 'maybe'
        return out

    def stores(self, nodes, s):
        """After statements that may or may not run."""
        s = dict(s)
        for nd in nodes:
            for x in ast.walk(nd):
                if isinstance(x, ast.Name) and \
                        isinstance(x.ctx, (ast.Store, ast.Del)) and \
                        x.id in s and s[x.id] != 'yes':
                    s[x.id] = 'maybe'
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and \
                        x.name in s and s[x.name] != 'yes':
                    s[x.name] = 'maybe'
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for al in x.names:
                        n = al.asname or al.name.split('.')[0]
                        if n in s and s[n] != 'yes':
                            s[n] = 'maybe'
                elif isinstance(x, ast.ExceptHandler) and x.name in s:
                    s[x.name] = 'maybe'
        return s

    def stmt(self, st, s):
        if isinstance(st, ast.Assign):
            self.uses(st.value, s)
            for t in st.targets:
                if not isinstance(t, ast.Name):
                    self.uses(t, s)
                self.gives(t, s)
        elif isinstance(st, ast.AnnAssign):
            self.uses(st.value, s)
            if st.value is not None:
                self.gives(st.target, s)
        elif isinstance(st, ast.AugAssign):
            self.uses(st.value, s)
            if isinstance(st.target, ast.Name):
                self.uses(ast.copy_location(
                    ast.Name(st.target.id, ast.Load()), st.target), s)
            else:
                self.uses(st.target, s)
            self.gives(st.target, s)
        elif isinstance(st, (ast.Expr, ast.Assert)):
            self.uses(st, s)
        elif isinstance(st, ast.Delete):
            self.uses(st, s)
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id in s:
                    s[t.id] = 'no'
        elif isinstance(st, (ast.Return, ast.Raise)):
            self.uses(st, s)
            return None
        elif isinstance(st, (ast.Break, ast.Continue)):
            return None
        elif isinstance(st, ast.If):
            self.uses(st.test, s)
            a = self.block(st.body, self.inside(s))
            b = self.block(st.orelse, self.inside(s))
            if a is not None and b is not None:
                for n in s:
                    if s[n] == 'arm':
                        # as before in the arms that say nothing of it
                        if a[n] == 'maybe' and not self.in_(n, st.body):
                            a[n] = 'arm'
                        if b[n] == 'maybe' and not self.in_(n, st.orelse):
                            b[n] = 'arm'
            m = self.merge(a, b, one=True)
            if m is None:
                return None
            # the arms of several tests may be complete together
            if a is not None and b is not None:
                for n in m:
                    if m[n] == 'arm' and (
                            self.correlated(st, n) or
                            len(st.orelse) == 1 and
                            isinstance(st.orelse[0], ast.If) and
                            self.in_(n, st.orelse) and
                            self.in_(n, st.body)):
                        m[n] = 'maybe'
            return m
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self.uses(st.iter, s)
            inner = self.stores([st], s)
            inn = dict(inner)
            self.gives(st.target, inn)
            # what is only given in a loop has none in its first round
            first = self.inside(s)
            self.gives(st.target, first)
            self.first(st.body, first, inn)
            self.block(st.orelse, self.inside(inner))
            return self.stores([st], s)
        elif isinstance(st, ast.While):
            self.uses(st.test, s)
            self.first(st.body, self.inside(s), self.stores([st], s))
            self.block(st.orelse, self.inside(self.stores([st], s)))
            return self.stores([st], s)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self.uses(it.context_expr, s)
                if it.optional_vars is not None:
                    self.gives(it.optional_vars, s)
            return self.block(st.body, s)
        elif isinstance(st, ast.Try) or type(st).__name__ == 'TryStar':
            mid = self.stores(st.body, s)
            a = self.block(st.body, self.inside(s))
            if a is not None:
                a = self.block(st.orelse, a)
            for h in st.handlers:
                e = dict(mid)
                if h.name in e:
                    e[h.name] = 'yes'
                e = self.block(h.body, e)
                a = self.merge(a, e)
            if st.finalbody:
                f = self.stores(st.body + st.handlers + st.orelse, s)
                f = self.block(st.finalbody, f)
                if f is None or a is None:
                    return None
                for n in a:
                    if f[n] == 'yes':
                        a[n] = 'yes'
            return a
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef,
                             ast.ClassDef)):
            if st.name in s:
                s[st.name] = 'yes'
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for al in st.names:
                n = al.asname or al.name.split('.')[0]
                if n in s:
                    s[n] = 'yes'
        elif type(st).__name__ == 'Match':
            return self.stores([st], s)
        return s

    def first(self, body, first, later):
        """A loop's body: in the first round what is only given in it has no
        value; a test of how often it ran may go together with that."""
        keep = dict(first)
        # within the loop a variable stored later in the same body
        for n in keep:
            if keep[n] == 'no' and later[n] == 'maybe':
                keep[n] = 'maybe' if self.guarded(body, n) else 'no'
        self.block(body, keep)

    def guarded(self, body, n):
        """Whether the uses of a variable in a loop are all under ifs."""
        return any(isinstance(x, (ast.If, ast.IfExp, ast.BoolOp, ast.Try))
                   for st in body for x in ast.walk(st))

    def inside(self, s):
        return dict((n, 'maybe' if v == 'arm' else v) for n, v in s.items())

    def in_(self, n, body):
        return any(isinstance(y, ast.Name) and y.id == n and
                   isinstance(y.ctx, (ast.Store, ast.Del))
                   for b in body for y in ast.walk(b))

    def correlated(self, st, n):
        """Whether something else may decide whether the variable is used."""
        # used under another if somewhere: only uses that follow without a
        # condition count, and those are what State looks at; but a name
        # given in the arms of several ifs may be complete together
        c = 0
        for x in ast.walk(self.fn):
            if isinstance(x, ast.If) and x is not st:
                if any(isinstance(y, ast.Name) and y.id == n and
                       isinstance(y.ctx, ast.Store) for y in ast.walk(x)):
                    if not any(y is st for y in ast.walk(x)) and \
                            not any(y is x for y in ast.walk(st)):
                        c += 1
        return c > 0


BAD = '''
import numpy as np
import os
def f(a, b=2):
    if a:
        c = 3
    return c + d
class A(object):
    def __init__(self, x):
        self.x = x
    def m(self, y):
        return self.z + self.m(1, 2) + np.no_such_thing(y)
def g(l):
    return f() + f(1, 2, 3) + A() + A(1).m() + os.path.nojoin(l)
'''


def examine(sources):
    w = World(sources)
    out = []
    n = {}
    for m in w.mods.values():
        k = Walk(w, m)
        k.scope(m.tree, [], '', None)
        out.extend((m, nd, fn, what) for nd, fn, what in k.out)
        for a, b in k.n.items():
            n[a] = n.get(a, 0) + b
    return out, n


@rule('X01', 'names-and-arguments')
def x01(sources):
    out = Outcome()
    bad, n = examine(sources)
    seen = set()
    for m, nd, fn, what in bad:
        k = (m.path, nd.lineno, what)
        if k in seen:
            continue
        seen.add(k)
        out.findings.append(Finding(
            'names-and-arguments',
            '%s:%d' % (m.path, nd.lineno), '%s(%s)' % (
                m.name, what.replace(' ', '_')),
            '%s in %s' % (what, fn or m.name)))
    out.examined = n
    out.functions = set('%s.%s' % (m, x) for m in sources
                        for x in defs(sources[m][1]))
    t, _ = examine({'bad': ('bad.py', ast.parse(BAD))})
    out.examined['self-test: mistakes found of 10'] = len(t)
    out.samples = [what for _, _, _, what in t]
    return out


def defs(tree):
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            yield x.name
        elif isinstance(x, ast.ClassDef):
            for y in x.body:
                if isinstance(y, ast.FunctionDef):
                    yield x.name + '.' + y.name
