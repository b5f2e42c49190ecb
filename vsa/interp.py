"""
Builds value-flow terms from Python source.

Every statement is visited a bounded number of times: branches are merged at
their join, the body of a loop is visited until the set of loop-carried
locations is stable, calls into the analysed package are expanded at the call
site.  The result is a gated value-flow graph of what comes out of a function
(results, effects), see terms.py.
"""
import ast
import os

from .terms import *
from . import terms as _terms
from .seq import *


class Closure(object):
    def __init__(self, node, module, fid, cls=None, name=None, gen=False):
        self.node, self.module, self.fid = node, module, fid
        self.cls, self.name = cls, name
        self.gen = gen
        self.defaults = []
        self.kwdefaults = []
        self.decos = []
        self.kind = 'func'      # or static, class, property


class ClassVal(object):
    def __init__(self, name, node, module, bases):
        self.name, self.node, self.module, self.bases = \
            name, node, module, bases
        self.ns = {}
        self.bad = None
        for b in bases:
            if b.op != 'class' and not (b.op == 'glob' and (
                    b.a[0] in ('object', 'abc.ABC') or
                    b.a[0].endswith(('Exception', 'Error', 'Warning')))):
                self.bad = 'a class of ' + show(b)[:40]

    def mro(self, it):
        out = [self]
        for b in self.bases:
            if b.op == 'class':
                for c in it.classes[b.a[0]].mro(it):
                    if c not in out:
                        out.append(c)
        return out


class Frame(object):
    def __init__(self, fid, module, parent, clo):
        self.fid, self.module, self.parent, self.clo = fid, module, parent, clo
        self.returns = []
        self.rtoks = []
        self.hook = None
        self.pc0 = 0
        self.globals_ = set()
        self.nonlocals = set()
        self.cls = clo.cls if clo is not None else None
        self.lname = clo.name if clo is not None else '<module>'


class Loop(object):
    def __init__(self, uid, n, cond, pc0):
        self.uid, self.n, self.cond = uid, n, cond
        self.continues, self.breaks = [], []
        self.pc0 = pc0


class Event(object):
    __slots__ = ('kind', 'name', 'term', 'guard', 'loops', 'src', 'fin',
                 'tries', 'func')

    def __init__(self, kind, name, term, guard, loops, src, fin, tries, func):
        self.kind, self.name, self.term, self.guard = kind, name, term, guard
        self.loops, self.src, self.fin, self.tries = loops, src, fin, tries
        self.func = func


UNDEF = mk('undef')
MODELLED = {'flowtracks.trajectory.Trajectory': 'traj',
            'flowtracks.trajectory.ParticleSnapshot': 'snap'}
CTOR = {'flowtracks.trajectory.Trajectory':
            ['pos', 'velocity', 'time', 'trajid'],
        'flowtracks.trajectory.ParticleSnapshot':
            ['pos', 'velocity', 'time', 'trajid']}


class Interp(object):
    MAXSTEPS = 400000

    def __init__(self, sources, concrete_sets=False, opaque=()):
        """sources - dict: module name -> (path, ast)"""
        self.opaque = dict(opaque)
        self.sources = sources
        self.concrete_sets = concrete_sets
        self.S = {}
        self.funcs, self.classes, self.objs = {}, {}, {}
        self.gens = {}
        self.bounds = {}
        self.modframes = {}
        self.frames = {}
        self.stack = []
        self.pc = []            # (cond, weak)
        self.loops = []
        self.events = []
        self.alias = {}
        self.loosev = {}
        self.factories = {}
        self.lvinit, self.roots = {}, {}
        self.lvfirst = {}
        self.own, self.ctok, self.argtok = {}, {}, {}
        self.given = set()
        self.fin = 0
        self.tries = []
        self.dead = None
        self.n = 0
        self.steps = 0
        self.exc_n = {}
        self.undecided = []
        self.facts = set()
        self.called = set()
        self.line = None
        self.stops = []
        from .lib import Lib
        self.lib = Lib(self)

    # ------------------------------------------------------------ modules

    def fresh(self):
        self.n += 1
        return self.n

    def module(self, name):
        if name in self.modframes:
            return self.modframes[name]
        path, tree = self.sources[name]
        fr = Frame(self.fresh(), name, None, None)
        fr.path = path
        self.modframes[name] = fr
        self.frames[fr.fid] = fr
        saved = (self.S, self.stack, self.pc, self.loops, self.events,
                 self.dead, Cur.src)
        self.stack, self.pc, self.loops, self.events = [fr], [], [], []
        self.dead = None
        try:
            for st in tree.body:
                try:
                    if isinstance(st, ast.If) and _is_main(st.test):
                        fr.main = st
                        continue
                    if isinstance(st, ast.Expr) and isinstance(
                            st.value, ast.Constant):
                        continue
                    self.stmt(st)
                except Undecided as e:
                    pass
                self.dead = None
        finally:
            _, self.stack, self.pc, self.loops, self.events, self.dead, \
                Cur.src = saved
        return fr

    def lookup_mod(self, mod, name):
        """A global of an analysed module."""
        fr = self.module(mod)
        v = self.S.get(('v', fr.fid, name))
        return v

    def path(self):
        fr = self.stack[-1]
        return self.sources[fr.module][0] if fr.module in self.sources \
            else '<spec>'

    # ------------------------------------------------------------ refs

    def alloc(self, content):
        i = self.fresh()
        self.S[('h', i)] = content
        return mk('ref', i)

    def content(self, v):
        if v.op == 'ref':
            return self.S.get(('h', v.a[0]), UNDEF)
        return v

    def deref(self, v, seen=None):
        """v with all references replaced by what they refer to now."""
        if 'ref' not in v.fl and v.op != 'ref':
            if not _hasspecial(v):
                return v
        return self._deref(v, {}, ())

    def _deref(self, v, memo, seen):
        if v in memo:
            return memo[v]
        if v.op == 'ref':
            if v in seen:
                return mk('cycle')
            c = self.S.get(('h', v.a[0]), UNDEF)
            r = self._deref(c, memo, seen + (v,))
            memo[v] = r
            return r
        if v.op == 'obj':
            if v in seen:
                return mk('cycle')
            r = self.freeze_obj(v, memo, seen + (v,))
            return r
        if v.op == 'gen':
            return self._deref(self.content(self.materialise(v)), memo, seen)
        if v.op == 'func':
            return self.freeze_func(v)
        if not v.a or not any(isinstance(x, T) for x in v.a):
            return v
        na, ch = [], False
        for x in v.a:
            if isinstance(x, T):
                y = self._deref(x, memo, seen)
                ch = ch or y is not x
                na.append(y)
            else:
                na.append(x)
        r = rebuild(v.op, na) if ch else v
        memo[v] = r
        return r

    def freeze_obj(self, o, memo, seen):
        cls, args = self.objs[o.a[0]]
        plain = not any(isinstance(x, ast.FunctionDef)
                        for x in cls.node.body)
        if plain:
            fields = []
            for k, v in self.S.items():
                if k[0] == 'f' and k[1] == o.a[0]:
                    fields.append((const(k[2]), self._deref(v, memo, seen)))
            return mk('struct', mkdict(fields))
        return mk('inst', cls.name, mkdict(
            [(const(k), self._deref(v, memo, seen)) for k, v in args]))

    def freeze_func(self, f):
        clo = self.funcs[f.a[0]]
        if clo.fid is None or isinstance(clo.node, ast.FunctionDef) and \
                self.frames.get(clo.fid) is not None and \
                self.frames[clo.fid].clo is None:
            return mk('fn', clo.name)
        if f in self._freezing:
            return mk('fn', clo.name)
        self._freezing.add(f)
        saved = (dict(self.S), len(self.events), self.dead)
        try:
            n = len(clo.node.args.args)
            args = [mk('larg', len(self._freezing), i, n) for i in range(n)]
            r = self.deref(self.call_closure(clo, args, [], None, None))
            return mk('lam', n, r)
        except Undecided:
            return mk('fn', clo.name)
        finally:
            self.S = saved[0]
            del self.events[saved[1]:]
            self.dead = saved[2]
            self._freezing.discard(f)
    _freezing = set()

    # ------------------------------------------------------------ state

    def assume(self, c, weak=False):
        if c.op == 'and':
            for x in c.a:
                self.pc.append((x, weak))
        elif c is not TRUE:
            self.pc.append((c, weak))

    def under(self, c):
        """Simplify condition c by what is known on the current path."""
        if c.op == 'const':
            return c
        known = {}
        for f, w in self.pc:
            known[f] = TRUE
            known[not_(f)] = FALSE
        if c in known:
            return known[c]
        if c.op in ('and', 'or'):
            return (and_ if c.op == 'and' else or_)(
                *[known.get(x, x) for x in c.a])
        return c

    def guard(self, pc0=0):
        return and_(*[c for c, w in self.pc[pc0:] if not w])

    def merge(self, c, A, B):
        if A is None:
            return B
        if B is None:
            return A
        out = {}
        for k in A:
            v = A[k]
            w = B.get(k)
            if w is None:
                # only on one side
                if k[0] == 'v':
                    out[k] = v if k[0] != 'v' else self.ite(c, v, UNDEF)
                else:
                    out[k] = v
            elif w is v:
                out[k] = v
            else:
                out[k] = self.ite(c, v, w)
                if k[0] in ('v', 'f'):
                    t = self.own.get((k, v))
                    if t is not None and t == self.own.get((k, w)):
                        self.own[(k, out[k])] = t
        for k in B:
            if k not in A:
                w = B[k]
                out[k] = self.ite(c, UNDEF, w) if k[0] == 'v' else w
        return out

    def ite(self, c, a, b):
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        # the same object with different contents is merged elsewhere
        return ite(c, a, b)

    # ------------------------------------------------------------ blocks

    def block(self, stmts):
        for st in stmts:
            if self.dead:
                return
            self.stmt(st)

    def stmt(self, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided('analysis budget')
        self.line = st.lineno
        Cur.src = (self.path(), st.lineno)
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Undecided('statement ' + type(st).__name__)
        m(st)

    def s_Pass(self, st):
        pass

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def s_Assign(self, st):
        v = self.ev(st.value)
        tok = self.token(st.value)
        for t in st.targets:
            self.assign(t, v)
            self.note_owner(t, tok)
            if isinstance(t, ast.Name):
                self.note_alias(t.id, st.value, v)

    # ---- which memory a variable stands for: an identity given to what an
    # expression makes anew, None if it is not known; ('c', n) for containers

    def varkey(self, name):
        fr = self.stack[-1]
        fid = fr.fid
        if name in fr.globals_:
            return ('v', self.modframes[fr.module].fid, name)
        seen = 0
        while fid is not None and seen < 30:
            seen += 1
            if ('v', fid, name) in self.S:
                return ('v', fid, name)
            f = self.frames[fid]
            fid = f.clo.fid if f.clo is not None else getattr(
                f, 'fid_up', None)
        return None

    def place_key(self, t):
        if isinstance(t, ast.Name):
            return self.varkey(t.id)
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            b = self.getvar(t.value.id)
            if b.op == 'obj':
                return ('f', b.a[0], self.mangle(t.attr))
        return None

    def note_owner(self, t, tok):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.note_owner(x, tok[1][i] if isinstance(tok, tuple) and
                                tok[0] == 't' and len(tok[1]) == len(t.elts)
                                else None)
            return
        k = self.place_key(t)
        if k is None:
            return
        v = self.S.get(k)
        if isinstance(tok, tuple) and tok[0] == 't':
            tok = None
        if v is not None:
            if tok is None:
                self.own.pop((k, v), None)
            else:
                self.own[(k, v)] = tok

    def token(self, e):
        if isinstance(e, ast.Name):
            k = self.varkey(e.id)
            return self.own.get((k, self.S.get(k)))
        if isinstance(e, ast.Attribute):
            k = self.place_key(e)
            if k is not None:
                return self.own.get((k, self.S.get(k)))
            if e.attr in ('T', 'real', 'imag', 'flat'):
                return self.part(e.value)
            return None
        if isinstance(e, (ast.BinOp, ast.UnaryOp, ast.Compare,
                          ast.JoinedStr)):
            return self.fresh()
        if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.DictComp,
                          ast.Set, ast.SetComp)):
            return ('c', self.fresh())
        if isinstance(e, ast.Tuple):
            return ('t', [self.token(x) for x in e.elts])
        if isinstance(e, ast.Call):
            return self.ctok.get(e)
        if isinstance(e, ast.Subscript):
            if e in self.ctok:
                return self.ctok[e]
            return self.part(e.value)
        if isinstance(e, ast.IfExp):
            a, b = self.token(e.body), self.token(e.orelse)
            if a is not None and a == b:
                return a
            if isinstance(a, int) and isinstance(b, int) and not isinstance(
                    e.body, ast.Name) and not isinstance(
                        e.orelse, ast.Name):
                return self.fresh()
        return None

    def part(self, e):
        """The memory of a part of what the expression gives."""
        t = self.token(e)
        return t if isinstance(t, int) else None

    def call_token(self, e, f, r):
        """Of the value of a call."""
        if f.op == 'glob':
            n = f.a[0]
            if n in VIEWS:
                return self.part(e.args[0]) if e.args else None
            if n in ('list', 'sorted', 'dict', 'set', 'tuple', 'copy.copy',
                     'collections.OrderedDict'):
                return 'c', self.fresh()
            kw = dict((k.arg, k.value) for k in e.keywords)
            c = kw.get('copy')
            if c is not None and not (isinstance(c, ast.Constant) and
                                      c.value is True):
                return None
            if 'out' in kw:
                return self.token(kw['out'])
            if n in SHARES:
                return None
            if n.startswith(('numpy.', 'scipy.', 'copy.')) or n in (
                    'int', 'float', 'str', 'len', 'abs', 'sum'):
                return self.fresh()
            return None
        if isinstance(e.func, ast.Attribute) and f.op not in (
                'func', 'class'):
            n = e.func.attr
            if n in ('reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes',
                     'view', 'diagonal'):
                return self.part(e.func.value)
            if e.keywords and any(k.arg in ('out', 'copy')
                                  for k in e.keywords):
                return None
            if n in MAKES:
                b = self.S.get(self.place_key(e.func.value)) \
                    if isinstance(e.func.value, ast.Name) else None
                if n == 'copy' and (b is None or kind(self.content(b)) in (
                        'dict', 'list', 'set', None)) and \
                        kind(self.deref(r)) not in ARRAY_KINDS:
                    return 'c', self.fresh()
                return self.fresh()
        return None

    def note_alias(self, name, e, v):
        """The variable stands for a place in something larger."""
        k = (self.stack[-1].fid, name)
        self.alias.pop(k, None)
        if v is UNDEF or v.op in ('ref', 'obj', 'const'):
            return
        e = as_place(e)
        if isinstance(e, ast.Subscript) and e not in self.ctok:
            self.alias[k] = (e, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def s_AugAssign(self, st):
        op = type(st.op).__name__
        t = st.target
        load = ast.copy_location(_as_load(t), t)
        old = self.ev(load)
        v = self.ev(st.value)
        c = self.content(old)
        if op == 'Add' and old.op == 'ref' and kind(c) == 'list' and \
                c.op != 'arr':
            self.S[('h', old.a[0])] = seqcat(c, self.aslist(v))
            self.mutated(old, 'iadd')
            return
        r = self.binop(op, old, v)
        # in-place on an array: whoever shares it sees the change
        if old.op == 'ref' and isinstance(t, (ast.Name, ast.Attribute)) and \
                kind(c) not in ('int', 'float', 'str', 'tuple', 'bool'):
            self.S[('h', old.a[0])] = self.deref(r)
            self.mutated(old, 'inplace', load)
            return
        if isinstance(t, (ast.Name, ast.Attribute)):
            self.mutated(old, 'inplace', load)
        tok = self.token(load)
        if isinstance(t, ast.Name):
            al = self.alias.get((self.stack[-1].fid, t.id))
            if al is not None and al[1] is old and kind(old) not in (
                    'int', 'float', 'str', 'tuple', 'bool', 'list'):
                i = al[0].slice
                if not (isinstance(i, ast.Constant) and
                        isinstance(i.value, str)):
                    self.event('untracked', 'inplace', r)
        if isinstance(t, (ast.Name, ast.Attribute)) and \
                kind(old) in ARRAY_KINDS and old.op != 'ref':
            self.replace(old, r, tok)
        self.assign(t, r)
        self.note_owner(t, tok)

    def s_Return(self, st):
        v = NONE if st.value is None else self.ev(st.value)
        if self.dead:
            return
        fr = self.stack[-1]
        fr.returns.append((self.pc_slice(fr.pc0), v, self.S,
                           tuple(self.loops)))
        fr.rtoks.append(None if st.value is None else self.token(st.value))
        self.dead = 'return'

    def pc_slice(self, pc0):
        return [c for c, w in self.pc[pc0:] if not w]

    def s_Raise(self, st):
        e = NONE if st.exc is None else self.ev(st.exc)
        if self.dead:
            return
        if self.stops and _excname(e) == 'StopIteration':
            npc, gs = self.stops[-1]
            gs.append(self.guard(npc))
            self.dead = 'raise'
            return
        self.event('raise', _excname(e), self.deref(e))
        self.dead = 'raise'

    def s_Assert(self, st):
        c = self.cond(st.test)
        if c is TRUE:
            return
        self.event('raise', 'AssertionError', c, extra=not_(c))
        self.assume(c, True)

    def s_Import(self, st):
        for a in st.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            self.setvar(nm, self.modref(full))

    def modref(self, full):
        if full in self.sources or full == 'flowtracks':
            return mk('mod', full)
        return mk('glob', canon_glob(full))

    def s_ImportFrom(self, st):
        mod = st.module or ''
        if st.level:
            cur = self.stack[0].module if len(self.stack) == 1 else \
                self.stack[-1].module
            base = cur.rsplit('.', st.level)[0] if '.' in cur else cur
            mod = base + ('.' + mod if mod else '')
        for a in st.names:
            if a.name == '*':
                if mod in self.sources:
                    fid = self.module(mod).fid
                    for k, v in list(self.S.items()):
                        if k[0] == 'v' and k[1] == fid and \
                                not k[2].startswith('_'):
                            self.setvar(k[2], v)
                continue
            self.setvar(a.asname or a.name, self.from_mod(mod, a.name))

    def from_mod(self, mod, name):
        if mod + '.' + name in self.sources:
            return mk('mod', mod + '.' + name)
        if mod in self.sources:
            v = self.lookup_mod(mod, name)
            if v is None:
                return mk('missing', mod + '.' + name)
            return v
        return glob_term(mod + '.' + name)

    def s_Global(self, st):
        self.stack[-1].globals_.update(st.names)

    def s_Nonlocal(self, st):
        self.stack[-1].nonlocals.update(st.names)

    def s_FunctionDef(self, st):
        self.setvar(st.name, self.mkfunc(st))

    def mkfunc(self, node, name=None):
        fr = self.stack[-1]
        name = name or node.name
        isgen = isinstance(node, ast.FunctionDef) and _is_gen(node)
        qual = fr.module + '.' + (fr.clsname + '.' if getattr(
            fr, 'clsname', None) else '') + name
        clo = Closure(node, fr.module, fr.fid, getattr(fr, 'incls', None),
                      qual, isgen)
        if getattr(fr, 'incls', None) is None and fr.cls is not None:
            clo.cls = fr.cls
        clo.defaults = [self.ev(d) for d in node.args.defaults]
        clo.kwdefaults = [None if d is None else self.ev(d)
                          for d in node.args.kw_defaults]
        k = self.fresh()
        self.funcs[k] = clo
        f = mk('func', k)
        for d in reversed(getattr(node, 'decorator_list', [])):
            dn = ast.unparse(d)
            if dn == 'staticmethod':
                clo.kind = 'static'
            elif dn == 'classmethod':
                clo.kind = 'class'
            elif dn == 'property':
                clo.kind = 'property'
            elif dn in ('contextmanager', 'contextlib.contextmanager'):
                clo.kind = 'ctx'
            elif dn.endswith('.setter'):
                clo.kind = 'setter'
            elif dn in ('functools.wraps', 'abstractmethod',
                        'abc.abstractmethod'):
                pass
            else:
                dv = self.ev(d)
                f = self.call(dv, [f], [])
        return f

    def s_ClassDef(self, st):
        fr = self.stack[-1]
        bases = [self.ev(b) for b in st.bases]
        name = fr.module + '.' + st.name
        cv = ClassVal(name, st, fr.module, bases)
        key = name
        self.classes[key] = cv
        sub_ = Frame(self.fresh(), fr.module, fr, None)
        sub_.clsname = st.name
        sub_.incls = cv
        sub_.fid_up = fr.fid
        self.frames[sub_.fid] = sub_
        self.stack.append(sub_)
        try:
            for s in st.body:
                if isinstance(s, ast.Expr) and isinstance(
                        s.value, ast.Constant):
                    continue
                self.stmt(s)
        finally:
            self.stack.pop()
        for k in list(self.S):
            if k[0] == 'v' and k[1] == sub_.fid:
                cv.ns[k[2]] = self.S.pop(k)
        # methods see module scope, not class scope
        for v in cv.ns.values():
            if v.op == 'func':
                self.funcs[v.a[0]].fid = fr.fid
        for d in st.decorator_list:
            n = self.ev(d.func if isinstance(d, ast.Call) else d)
            if n.op == 'glob' and n.a[0] == 'dataclasses.dataclass':
                self.dataclass(st, cv, fr)
            else:
                cv.bad = 'a decorated class'
        self.setvar(st.name, mk('class', key))

    def dataclass(self, st, cv, fr):
        """Add the constructor of a data class."""
        f = [x for x in st.body if isinstance(x, ast.AnnAssign)]
        if any(b.op == 'class' for b in cv.bases) or '__init__' in cv.ns or \
                '__post_init__' in cv.ns:
            cv.bad = 'a data class'
            return
        for x in f:
            if isinstance(x.value, ast.Call):
                cv.bad = 'a data class'
        text = 'def __init__(self, %s):\n' % ', '.join(
            x.target.id + (' = 0' if x.value is not None else '') for x in f)
        text += '    pass\n' + ''.join('    self.%s = %s\n' % (
            x.target.id, x.target.id) for x in f)
        t = ast.parse(text).body[0]
        d = [x.value for x in f if x.value is not None]
        t.args.defaults = d
        self.method_of(cv, fr, t)

    def method_of(self, cv, fr, t):
        saved = self.S.get(('v', fr.fid, t.name))
        self.stmt(t)
        cv.ns[t.name] = self.S.pop(('v', fr.fid, t.name))
        if saved is not None:
            self.S[('v', fr.fid, t.name)] = saved

    def namedtuple(self, name, fields):
        """A class that does what a named tuple does."""
        fs = ', '.join(fields)
        tup = '(%s,)' % ', '.join('self.' + f for f in fields)
        text = '''class %s(object):
    def __init__(self, %s):
        pass
%s
    def __iter__(self):
        return %s
    def __len__(self):
        return %d
    def __getitem__(self, i):
        return %s[i]
    def _asdict(self):
        return dict(%s)
    def __contains__(self, x):
        return x in %s
''' % (name, fs, ''.join('        self.%s = %s\n' % (f, f) for f in fields),
            tup, len(fields), tup,
            ', '.join('%s=self.%s' % (f, f) for f in fields), tup)
        st = ast.parse(text).body[0]
        k = ('v', self.stack[-1].fid, name)
        saved = self.S.get(k)
        self.stmt(st)
        r = self.S.pop(k)
        if saved is not None:
            self.S[k] = saved
        return r

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.S.pop(('v', self.stack[-1].fid, t.id), None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.ev_index(t.slice)
                if b.op == 'ref':
                    c = self.content(b)
                    if kind(c) == 'dict':
                        self.S[('h', b.a[0])] = ddel(c, self.deref(i))
                        continue
                    self.event('untracked', 'del', c)
                    self.S[('h', b.a[0])] = mk('deleted', self.deref(c),
                                               self.deref(i))
                    continue
                self.mutated(b, 'del', t.value)
                if kind(b) == 'dict':
                    self.store_back(t.value, b, ddel(b, self.deref(i)))
                elif b.op not in ('objdict', 'cfgsec'):
                    if kind(b) != 'dict':
                        self.event('untracked', 'del', b)
                    self.store_back(t.value, b, mk('deleted', self.deref(b),
                                                   self.deref(i)))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                if b.op == 'obj':
                    self.S.pop(('f', b.a[0], self.mangle(t.attr)), None)

    # --- control

    def s_If(self, st):
        c = self.cond(st.test)
        if self.dead:
            return
        self.branch(c, lambda: self.block(st.body),
                    lambda: self.block(st.orelse))

    def branch(self, c, fa, fb):
        c = self.under(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        S0, npc = self.S, len(self.pc)
        self.S = dict(S0)
        self.assume(c)
        m = len(self.pc)
        fa()
        SA, dA, pA = self.S, self.dead, self.pc[m:]
        del self.pc[npc:]
        self.dead = None
        self.S = dict(S0)
        self.assume(not_(c))
        m = len(self.pc)
        fb()
        SB, dB, pB = self.S, self.dead, self.pc[m:]
        del self.pc[npc:]
        if dA and dB:
            self.dead = dA if dA == dB else 'mixed'
            self.S = SA
            return
        self.dead = None
        if dA:
            self.S = SB
            self.assume(not_(c), dA == 'raise')
            self.pc.extend(pB)
            return
        if dB:
            self.S = SA
            self.assume(c, dB == 'raise')
            self.pc.extend(pA)
            return
        self.S = self.merge(c, SA, SB)
        for p, cc in ((pA, c), (pB, not_(c))):
            for q, w in p:
                self.assume(or_(not_(cc), q), w)

    def s_For(self, st):
        vs = self.row_views(st)
        it = self.ev(st.iter)
        if self.dead:
            return
        kinds = set(m for _, m, _ in vs)
        if kinds == {'row'} or kinds == {'elt'}:
            k = '.row%d' % st.lineno
            it = mk('enumerate', it, ZERO)

            def body(v):
                j = self.getitem(v, ZERO)
                self.setvar(k, j)
                self.assign(st.target, self.getitem(v, ONE))
                for name, m, e in vs:
                    if m == 'elt':
                        if num(j) is None:
                            self.loose(name)
                            continue
                        e = e[int(num(j))]
                        if as_place(e) is e and not isinstance(
                                e, (ast.Name, ast.Attribute, ast.Subscript)):
                            continue
                        self.view(st, name, e)
                    else:
                        self.view(st, name, self.at_key(st, e, k))
                self.block(st.body)
            self.for_each(it, body, st.orelse)
            return
        if kinds == {'items'} or kinds == {'values'}:
            k = '.row%d' % st.lineno
            (name, m, e), = vs
            if m == 'values':
                it = mk('items', self.content(it).a[0])

            def body(v):
                self.setvar(k, self.getitem(v, ZERO))
                self.assign(st.target, v if m == 'items' else
                            self.getitem(v, ONE))
                self.view(st, name, self.at_key(st, e, k))
                self.block(st.body)
            self.for_each(it, body, st.orelse)
            return
        seen = set(n for n, _, _ in vs)
        other = [n for n in targets(st.target)
                 if n in inplace(st.body) and n not in seen]

        def plain(v):
            self.assign(st.target, v)
            for n in other:
                self.loose(n)
            self.block(st.body)
        self.for_each(it, plain, st.orelse)

    def at_key(self, st, e, k):
        e = ast.copy_location(ast.Subscript(
            value=e, slice=ast.Name(id=k, ctx=ast.Load()),
            ctx=ast.Load()), st)
        ast.fix_missing_locations(e)
        return e

    def view(self, st, name, e):
        """The variable is the place of the expression."""
        v = self.ev(e)
        self.setvar(name, v)
        k = (self.stack[-1].fid, name)
        self.alias.pop(k, None)
        if v is not UNDEF and v.op not in ('ref', 'obj', 'const'):
            self.alias[k] = (e, v)

    def loose(self, name):
        """An element of something, changed in place, not known where."""
        v = self.S.get(self.varkey(name))
        if v is not None and v.op not in ('ref', 'obj', 'const', 'tuple'):
            self.loosev[(self.stack[-1].fid, name)] = v

    def row_views(self, st):
        """Loop variables that are rows of an array or elements of a list or
        dictionary, changed in place in the loop: [(name, 'row', expression of
        the array)], ..."""
        t, e = st.target, st.iter
        names = set(inplace(st.body))

        def fname(e):
            return e.func.id if isinstance(e, ast.Call) and isinstance(
                e.func, ast.Name) and not e.keywords else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr in ('items', 'values') and not e.args and \
                isinstance(e.func.value, (ast.Name, ast.Attribute)):
            m = e.func.attr
            if m == 'items':
                if not isinstance(t, ast.Tuple) or len(t.elts) != 2:
                    return []
                t = t.elts[1]
            if isinstance(t, ast.Name) and t.id in names and kind(
                    self.content(self.ev(e.func.value))) == 'dict':
                return [(t.id, m, e.func.value)]
            return []
        if isinstance(e, (ast.Tuple, ast.List)) and isinstance(
                t, ast.Name) and t.id in names and not any(
                    isinstance(x, ast.Starred) for x in e.elts):
            return [(t.id, 'elt', e.elts)]
        if isinstance(e, (ast.Tuple, ast.List)) and isinstance(
                t, ast.Tuple) and all(
                    isinstance(x, (ast.Tuple, ast.List)) and
                    len(x.elts) == len(t.elts) for x in e.elts):
            out = []
            for j, n in enumerate(t.elts):
                if isinstance(n, ast.Name) and n.id in names:
                    out.append((n.id, 'elt', [x.elts[j] for x in e.elts]))
            return out
        if fname(e) == 'enumerate' and len(e.args) == 1 and isinstance(
                t, ast.Tuple) and len(t.elts) == 2:
            t, e = t.elts[1], e.args[0]
        if fname(e) == 'zip' and isinstance(t, ast.Tuple) and len(
                t.elts) == len(e.args):
            pairs = list(zip(t.elts, e.args))
        else:
            pairs = [(t, e)]
        pairs = [(t.id, e) for t, e in pairs if isinstance(t, ast.Name) and
                 isinstance(e, (ast.Name, ast.Attribute))]
        if not pairs:
            return []
        out = []
        for n, e in pairs:
            if n in names:
                c = self.content(self.ev(e))
                if c.op == 'list' and kind(c) == 'list' or c.op not in (
                        'list', 'tuple', 'dict', 'gen', 'range',
                        'obj', 'enumerate', 'zip', 'items', 'map',
                        'lcat') and kind(c) not in (
                            'list', 'dict', 'set', 'str'):
                    out.append((n, 'row', e))
        return out

    s_AsyncFor = None

    def s_While(self, st):
        self.while_loop(st)

    def s_Break(self, st):
        lp = self.loops[-1]
        lp.breaks.append((self.pc_slice(lp.pc0), self.S))
        self.dead = 'break'

    def s_Continue(self, st):
        lp = self.loops[-1]
        lp.continues.append((self.pc_slice(lp.pc0), self.S))
        self.dead = 'continue'

    def _files_in(self, todo):
        """The files what a block computes comes from, if any."""
        out, seen = set(), set()
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == 'call' and x.a[0] is glob_term('tables.open_file'):
                out.add(x)
            todo.extend(y for y in x.a if isinstance(y, T))
        if not out:
            return None
        return mk('tuple', *sorted(out, key=lambda t: t.d))

    def s_Try(self, st):
        S0, npc, nev = dict(self.S), len(self.pc), len(self.events)
        known = set(_conj(self.guard()))
        tok = (self.fresh(), tuple(_hname(h) for h in st.handlers),
               bool(st.finalbody))
        self.tries.append(tok)
        nret = dict((f.fid, len(f.returns)) for f in self.stack)
        try:
            self.block(st.body)
        finally:
            self.tries.pop()
        inbody = [(f, j) for f in self.stack
                  for j in range(nret.get(f.fid, 0), len(f.returns))]
        dead = self.dead
        if not dead and st.orelse:
            self.block(st.orelse)
            dead = self.dead
        SA, pA = self.S, self.pc[npc:]
        if st.handlers and dead == 'gexit':
            if any(_hname(h) in ('all', 'BaseException', 'GeneratorExit')
                   for h in st.handlers):
                raise Undecided('a handler for leaving a generator')
        elif st.handlers:
            del self.pc[npc:]
            results = [(None, SA, dead, pA)]
            for h in st.handlers:
                nm = _hname(h)
                own = [e for e in self.events[nev:] if e.kind == 'raise' and
                       (e.name == nm or nm == 'all')]
                if own:
                    c = or_(*[and_(*[g for g in _conj(e.guard) if g not in
                                     known]) for e in own])
                    self.events[nev:] = [e for e in self.events[nev:]
                                         if e not in own]
                else:
                    k = self._files_in(
                        [v for k, v in SA.items() if isinstance(v, T) and
                         S0.get(k) is not v] +
                        [x for f, j in inbody for x in f.returns[j][1:2]
                         if isinstance(x, T)])
                    if k is None:
                        k = self.exc_n.get(nm, 0)
                        self.exc_n[nm] = k + 1
                    c = mk('exc', nm, k)
                    for f, j in inbody:
                        r = f.returns[j]
                        f.returns[j] = (list(r[0]) + [not_(c)],) + \
                            tuple(r[1:])
                self.S = dict(S0)
                self.dead = None
                self.assume(c)
                if h.name:
                    self.setvar(h.name, mk('excval', nm))
                self.block(h.body)
                results.append((c, self.S, self.dead, None))
                del self.pc[npc:]
            # merge
            _, S, d, p = results[0]
            self.pc.extend(p)
            for c, SB, dB, _ in results[1:]:
                if dB:
                    self.assume(not_(c), dB == 'raise')
                elif d:
                    S, d = SB, None
                    self.assume(c)
                else:
                    S = self.merge(c, SB, S)
            self.S, self.dead = S, d
        if st.finalbody:
            d = self.dead
            # on exits by return the body of finally is run with their state
            self.dead = None
            self.fin += 1
            self.tries.append((tok[0], 'finally', True))
            try:
                if d == 'return':
                    fr = self.stack[-1]
                self.block(st.finalbody)
            finally:
                self.fin -= 1
                self.tries.pop()
            if not self.dead:
                self.dead = d
            # returns recorded inside the try get the effects of finally too
            fr = self.stack[-1]

    def s_With(self, st):
        self.with_items(st.items, st.body)

    def with_items(self, items, body):
        if not items:
            return self.block(body)
        item = items[0]
        v = self.ev(item.context_expr)
        rest = lambda: self.with_items(items[1:], body)
        c = self.content(v)
        if c.op == 'gen' and self.gens[c.a[0]][0].kind == 'ctx':
            depth = len(self.stack)

            def hook(val):
                # the body runs in the frame of the with statement
                saved = self.stack
                self.stack = saved[:depth]
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, val)
                rest()
                self.stack = saved
                return NONE
            self.run_gen(c, hook)
            return
        if v.op == 'obj':
            ent = self.method(v, '__enter__')
            if ent is not None:
                r = self.call(ent, [], [])
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, r)
                tok = (self.fresh(), (), True)
                self.tries.append(tok)
                rest()
                self.tries.pop()
                d, self.dead = self.dead, None
                self.fin += 1
                self.tries.append((tok[0], 'finally', True))
                self.call(self.method(v, '__exit__'), [NONE, NONE, NONE], [])
                self.tries.pop()
                self.fin -= 1
                self.dead = self.dead or d
                return
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v)
        tok = (self.fresh(), (), True)
        self.tries.append(tok)
        rest()
        self.tries.pop()
        d, self.dead = self.dead, None
        self.fin += 1
        self.tries.append((tok[0], 'finally', True))
        dv = self.deref(v)
        if not (dv.op == 'call' and dv.a[0].op == 'glob' and
                dv.a[0].a[0].startswith(('warnings.', 'numpy.errstate'))):
            self.event('call', 'close', mk('call', mk('meth', 'close'),
                       mk('tuple', dv), mk('kw')))
        self.tries.pop()
        self.fin -= 1
        self.dead = d

    # ------------------------------------------------------------ variables

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            for fr in reversed(self.stack):
                c = getattr(fr, 'incls', None) or fr.cls
                if c is not None:
                    return '_' + c.name.rsplit('.', 1)[1].lstrip('_') + name
                break
        return name

    def setvar(self, name, v):
        fr = self.stack[-1]
        fid = fr.fid
        if name in fr.globals_:
            fid = self.modframes[fr.module].fid
        elif name in fr.nonlocals:
            fid = self.find_scope(name, fr) or fid
        self.S[('v', fid, name)] = v

    def find_scope(self, name, fr):
        f = fr
        fid = f.clo.fid if f.clo is not None else None
        while fid is not None:
            if ('v', fid, name) in self.S:
                return fid
            f = self.frames[fid]
            fid = f.clo.fid if f.clo is not None else None
        return None

    def getvar(self, name):
        fr = self.stack[-1]
        f, fid = fr, fr.fid
        seen = 0
        while fid is not None and seen < 30:
            seen += 1
            v = self.S.get(('v', fid, name))
            if v is not None:
                return v
            f = self.frames[fid]
            if f.clo is not None:
                fid = f.clo.fid
            elif getattr(f, 'fid_up', None):
                fid = f.fid_up
            else:
                fid = None
        mf = self.modframes.get(fr.module)
        if mf is not None:
            v = self.S.get(('v', mf.fid, name))
            if v is not None:
                return v
        if self.loops and fr.clo is not None and isinstance(
                fr.clo.node, (ast.FunctionDef, ast.Lambda)) and any(
                    lp.uid is not None for lp in self.loops) and any(
                        isinstance(x, ast.Name) and x.id == name and
                        isinstance(x.ctx, ast.Store)
                        for x in ast.walk(fr.clo.node)):
            raise Undecided('a value of an earlier iteration')
        if name in BUILTINS:
            return mk('glob', name)
        return mk('missing', name)

    def local_names(self):
        fid = self.stack[-1].fid
        return dict((k[2], v) for k, v in self.S.items()
                    if k[0] == 'v' and k[1] == fid)

    # ------------------------------------------------------------ assignment

    def assign(self, t, v):
        if self.dead:
            return
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.setattr(b, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.ev_index(t.slice)
            self.setitem(t.value, b, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided('assignment target')

    def unpack(self, elts, v):
        c = self.content(v)
        if c.op == 'obj':
            m = self.method(c, '__iter__')
            if m is not None:
                r = self.call(m, [], [])
                if r is not c:
                    return self.unpack(elts, r)
        c = self.content(self.iterlist(v)) if c.op in ('gen', 'iter') else c
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            for j in range(i):
                self.assign(elts[j], self.getitem(c, const(j)))
            self.assign(elts[i].value, self.alloc(self.sub(
                self.deref(c), mk('slice', const(i), NONE if not after else
                                  const(-after), NONE))))
            for j in range(after):
                self.assign(elts[i + 1 + j],
                            self.getitem(c, const(j - after)))
            return
        if c.op in ('list', 'tuple') and len(c.a) != len(elts):
            self.event('raise', 'ValueError', mk('unpack', c))
            self.dead = 'raise'
            return
        for j, e in enumerate(elts):
            self.assign(e, self.getitem(c, const(j)))

    def setattr(self, b, name, v):
        if b.op == 'ite':
            self.branch(b.a[0], lambda: self.setattr(b.a[1], name, v),
                        lambda: self.setattr(b.a[2], name, v))
            return
        if b.op == 'obj':
            st = self.find_method(b, name + '')
            if st is not None and st.op == 'func' and \
                    self.funcs[st.a[0]].kind == 'setter':
                self.call_closure(self.funcs[st.a[0]], [b, v], [], None, None)
                return
            self.S[('f', b.a[0], name)] = v
            return
        if b.op == 'mod':
            fr = self.module(b.a[0])
            self.S[('v', fr.fid, name)] = v
            return
        db = self.deref(b)
        if kind(db) in ('traj', 'snap', 'frame'):
            self.mutated(b, 'setattr')
        self.event('setattr', name, mk('setattr', db, name, self.deref(v)))
        # remembered, so that it may be read back
        self.S[('x', db, name)] = v

    def setitem(self, node, b, i, v):
        """b[i] = v, where b is the value of expression ``node``"""
        if b.op == 'ite' and _hasref(b):
            self.branch(b.a[0], lambda: self.setitem(node, b.a[1], i, v),
                        lambda: self.setitem(node, b.a[2], i, v))
            return
        if b.op == 'ref':
            c = self.content(b)
            self.mutated(b, 'setitem', node)
            if c.op == 'objdict':
                self.S[('f', c.a[0], self.fieldname(i))] = v
                return
            if kind(c) == 'dict':
                self.S[('h', b.a[0])] = dset(c, self.deref(i), v)
            elif c.op == 'lv':
                self.S[('h', b.a[0])] = mk('setlv', c, self.deref(i), v)
            else:
                # a row of a list of references is mutated in place
                self.S[('h', b.a[0])] = upd(c, self.deref(i), v) \
                    if c.op == 'list' else upd(
                        self.deref(c), self.deref(i), self.deref(v))
            return
        if b.op == 'objdict':
            self.S[('f', b.a[0], self.fieldname(i))] = v
            return
        if b.op == 'cfgsec':
            self.lib.method(b.a[0], 'set', [b.a[1], i, v], [], node)
            return
        if b.op == 'obj':
            m = self.method(b, '__setitem__')
            if m is not None:
                self.call(m, [i, v], [])
                return
        self.mutated(b, 'setitem', node)
        if kind(b) != 'dict':
            self.stored(b, self.deref(v))
        new = upd(self.deref(b), self.deref(i), self.deref(v)) \
            if kind(b) != 'dict' else dset(b, self.deref(i), v)
        self.store_back(node, b, new)

    def stored(self, b, v):
        """A note of what is put in an array of a fixed type."""
        b = self.deref(b)
        for _ in range(50):
            if b.op in ('upd', 'prop') or b.op == 'lupd' and False:
                b = b.a[0]
            elif b.op in ('lupd', 'lupdm'):
                b = b.a[1]
            elif b.op == 'sub' and b.a[0] in self.lvfirst:
                b = sub(self.deref(self.lvfirst[b.a[0]]), b.a[1])
            elif b in self.lvfirst:
                b = self.deref(self.lvfirst[b])
            elif b.op == 'fold' and b.a[2].op == 'tuple' and \
                    len(b.a[2].a) == 1:
                b = b.a[2].a[0]
            else:
                break
        d = made_as(b)
        if b.op == 'ite':
            ds = [made_as(x) for x in arms(b)]
            d = ds[0] if None not in ds else None
            for x in ds:
                if d is not None and show(x, 3) not in WHOLE:
                    d = x
        if d is not None:
            self.event('stored', show(d, 2), mk('stored', d, v))

    def store_back(self, node, old, new):
        """The object ``old``, the value of ``node``, has become ``new``."""
        node = as_place(node)
        if isinstance(node, ast.Name):
            al = self.alias.get((self.stack[-1].fid, node.id))
            if al is None and self.loosev.get(
                    (self.stack[-1].fid, node.id)) is old:
                self.event('untracked', 'element', new)
            fc = self.stack[-1].clo
            if al is None and old.op in ('sub', 'prop', 'attr') and \
                    fc is not None and len(self.stack) > 1 and any(
                        a.arg == node.id for a in fc.node.args.args):
                self.event('untracked', 'argument', new)
            if al is None and old.op == 'call' and old.a[0].op == 'glob' and \
                    old.a[0].a[0] in VIEWS and old.a[1].a and \
                    old.a[1].a[0].op not in ('list', 'tuple', 'const'):
                self.event('untracked', 'view', new)
            tok = self.token(node)
            self.replace(old, new, tok)
            v = self.getvar(node.id)
            if v is old:
                self.setvar(node.id, new)
            self.note_owner(node, tok)
            if al is not None and al[1] is old and \
                    self.ev(al[0]) is old:
                self.store_back(al[0], old, new)
                self.alias[(self.stack[-1].fid, node.id)] = (al[0], new)
        elif isinstance(node, ast.Attribute):
            b = self.ev(node.value)
            tok = self.token(node)
            self.setattr(b, self.mangle(node.attr), new)
            self.note_owner(node, tok)
        elif isinstance(node, ast.Subscript):
            b = self.ev(node.value)
            i = self.ev_index(node.slice)
            if kind(b) not in ('dict', 'list') and copies(self.deref(i)):
                return              # a copy was changed
            self.setitem(node.value, b, i, new)
        elif isinstance(node, ast.Call) and isinstance(
                node.func, ast.Name) and node.func.id == 'getattr' and \
                len(node.args) == 2:
            n = self.deref(self.ev(node.args[1]))
            if n.op == 'const':
                self.setattr(self.ev(node.args[0]), n.a[1], new)
            else:
                self.event('untracked', 'expr', new)
        else:
            self.event('untracked', 'expr', new)

    def replace(self, old, new, tok=None):
        """All variables sharing a value see its mutation."""
        if old.op in ('const', 'tuple', 'list'):
            return
        for k, v in list(self.S.items()):
            if v is old and k[0] in ('v', 'f'):
                t = self.own.get((k, v))
                if t is None or tok is None or t == tok:
                    self.S[k] = new
                    if t is not None:
                        self.own[(k, new)] = t

    def fieldname(self, i):
        i = self.deref(i)
        if i.op == 'const' and i.a[0] == 'str':
            return i.a[1]
        return i

    def mutated(self, b, how, node=None):
        if node is not None and b.op != 'ref':
            n = as_place(node)
            if isinstance(n, ast.Name):
                al = self.alias.get((self.stack[-1].fid, n.id))
                if al is not None and al[1] is b and \
                        self.part(al[0]) is not None and \
                        self.part(al[0]) not in self.given:
                    return
            t = self.token(n)
            if t is not None and t not in self.given:
                return
        root = self.root_param(b)
        if root is not None:
            self.event('mutate', root, mk('const', 'str', how))

    def root_param(self, b):
        """The parameter a value is (a part of), sharing its memory."""
        seen = 0
        while seen < 50:
            seen += 1
            if b.op == 'ref':
                o = self.S.get(('o', b.a[0]))
                if o is None:
                    return None
                b = o
                continue
            if b.op == 'param':
                return b.a[0]
            if b in self.roots:
                return self.roots[b]
            if b in self.lvinit:
                b = self.lvinit[b]
                continue
            if b.op == 'sub' and kind(b.a[0]) in ('traj', 'snap'):
                return None
            if b.op == 'sub' and (self.isview(b.a[1]) or
                                  kind(b.a[0]) == 'dict'):
                b = b.a[0]
            elif b.op in ('upd', 'prop', 'arr'):
                b = b.a[0]
            elif b.op == 'call' and b.a[0].op == 'glob' and b.a[0].a[0] in (
                    'numpy.atleast_2d', 'numpy.atleast_1d', 'numpy.asarray',
                    'numpy.transpose', 'numpy.reshape', 'numpy.ravel',
                    'numpy.squeeze'):
                b = b.a[1].a[0]
            else:
                return None
        return None

    def isview(self, i):
        if i.op == 'tuple':
            return all(self.isview(x) for x in i.a)
        return i.op in ('slice', 'const') or kind(i) in ('int', 'str') or \
            i.op in ('ix', 'bv')

    # ------------------------------------------------------------ events

    def event(self, kind_, name, term, extra=None):
        g = self.guard()
        if extra is not None:
            g = and_(g, extra)
        fr = self.stack[-1]
        self.events.append(Event(kind_, name, term, g, list(self.loops),
                                 Cur.src, self.fin, tuple(self.tries),
                                 fr.lname))

    # ------------------------------------------------------------ loops

    def for_each(self, it, body, orelse=()):
        """Run body for the elements of iterable value ``it``."""
        c = self.content(it)
        if c.op == 'obj':
            m = self.method(c, '__iter__')
            if m is not None:
                r = self.call(m, [], [])
                if r is not c:
                    return self.for_each(r, body, orelse)
            nx = self.method(c, '__next__')
            if nx is not None:
                cell = []

                def cond():
                    npc = len(self.pc)
                    self.stops.append((npc, []))
                    v = self.call(nx, [], [])
                    _, gs = self.stops.pop()
                    g = not_(or_(*gs))
                    del self.pc[npc:]
                    self.dead = None
                    self.assume(g)
                    del cell[:]
                    cell.append(v)
                    return g
                self.loop(mk('while', ZERO), TRUE, None,
                          lambda v: body(cell[0]), cond)
                self.after_else(orelse)
                return
        if c.op == 'ite' and (_hasref(c) or _hasgen(c) or leaves(c) <= 16 and
                              (_litlist(c.a[1]) or _litlist(c.a[2]))):
            self.branch(c.a[0], lambda: self.for_each(c.a[1], body, orelse),
                        lambda: self.for_each(c.a[2], body, orelse))
            return
        if c.op == 'gen':
            lp = Loop(None, None, TRUE, len(self.pc))
            depth = len(self.stack)
            self.loops.append(lp)

            def hook(v):
                # the body runs in the frame of the consumer
                saved = self.stack
                self.stack = saved[:depth]
                inner = self.loops
                lp2 = Loop(None, None, TRUE, len(self.pc))
                self.loops = inner + [lp2]
                body(v)
                self.stack = saved
                self.loops = inner
                if lp2.continues:
                    self.join_paths(lp2.continues, lp2.pc0)
                if lp2.breaks:
                    lp.breaks.extend((self.pc_slice(lp.pc0)[:0] + g, s)
                                     for g, s in lp2.breaks)
                if self.dead in ('break', 'continue'):
                    self.dead = 'gstop'
                return NONE
            self.run_gen(c, hook)
            self.loops.remove(lp)
            if self.dead == 'gstop':
                self.dead = None
            if lp.breaks:
                raise Undecided('break in a loop over a generator')
            if orelse and not self.dead:
                self.block(orelse)
            return
        seq = self.iter_view(it)
        if seq is None:
            raise Undecided('iteration over ' + show(c)[:80])
        n, getter, cond = seq
        nn = num(n)
        if nn is not None and cond is TRUE and nn <= 24 and getter is not None:
            # a literal sequence: no loop at all
            self.unrolled(int(nn), getter, body, orelse)
            return
        self.loop(n, cond, getter, body)
        self.after_else(orelse)

    def after_else(self, orelse):
        """The ``else`` of a loop: run when it was not broken off."""
        if orelse and not self.dead:
            self.branch(self.broken, lambda: None,
                        lambda: self.block(orelse))

    def unrolled(self, n, getter, body, orelse, j=0):
        """A loop over a known number of elements, from the j-th on."""
        if j == n:
            if orelse:
                self.block(orelse)
            return
        lp = Loop(None, None, TRUE, len(self.pc))
        self.loops.append(lp)
        body(getter(const(j)))
        self.loops.pop()
        if lp.continues:
            self.join_paths(lp.continues, lp.pc0)
        elif self.dead in ('continue', 'cont'):
            self.dead = None
        if not lp.breaks:
            if not self.dead:
                self.unrolled(n, getter, body, orelse, j + 1)
            return
        S_b = lp.breaks[-1][1]
        for gg, ss in lp.breaks[-2::-1]:
            S_b = self.merge(and_(*gg), ss, S_b)
        g = or_(*[and_(*b[0]) for b in lp.breaks])
        if not self.dead:
            # the rest is run only without a break
            self.unrolled(n, getter, body, orelse, j + 1)
            if not self.dead:
                S_b = self.merge(g, S_b, self.S)
        self.S, self.dead = S_b, None
        del self.pc[lp.pc0:]

    def join_paths(self, paths, pc0):
        """Merge the states of ``continue`` statements with the normal end of
        the body."""
        S, alive = self.S, not self.dead
        if self.dead and self.dead not in ('continue', 'cont', 'break',
                                           'return', 'raise', 'mixed',
                                           'gstop'):
            alive = False
        for g, s in reversed(paths):
            if not alive:
                S, alive = s, True
            else:
                S = self.merge(and_(*g), s, S)
        if alive:
            self.S = S
            self.dead = None
        del self.pc[pc0:]

    def loop(self, n, cond, getter, body, whilecond=None):
        uid = self.fresh()
        ix = mk('ix', uid)
        S0 = dict(self.S)
        lvs, closed = {}, {}
        # dictionaries of known keys: each item by itself
        lit = {}
        for k, v in self.S.items():
            if k[0] == 'h' and v.op == 'dict' and 0 < len(v.a) < 13 and all(
                    p.a[0].op == 'const' for p in v.a):
                lit[k] = [p.a[0] for p in v.a]
                for p in v.a:
                    S0[('dk', uid, k[1], p.a[0])] = p.a[1]
        ev0 = len(self.events)
        rets0 = dict((f.fid, len(f.returns)) for f in self.stack)
        pc0 = len(self.pc)
        exc0 = dict(self.exc_n)
        lids = {}
        dead0 = self.dead
        for attempt in range(12):
            self.S = dict(S0)
            for k, l in lvs.items():
                self.S[k] = closed.get(k, l)
            for k, ks in lit.items():
                if any(('dk', uid, k[1], j) in lvs for j in ks):
                    self.S[k] = mkdict([(j, self.S[('dk', uid, k[1], j)])
                                        for j in ks])
            lit0 = dict((k, self.S[k]) for k in lit)
            del self.events[ev0:]
            for f in self.stack:
                del f.returns[rets0.get(f.fid, 0):]
            del self.pc[pc0:]
            self.exc_n = dict(exc0)
            lp = Loop(uid, n, cond, pc0)
            self.loops.append(lp)
            wc = None
            if whilecond is not None:
                wc = whilecond()
                if wc is TRUE:
                    pass
            if callable(cond):
                cnd = cond(ix)
            else:
                cnd = cond
            self.assume(cnd)
            lp.cond = cnd
            lp.pc0 = len(self.pc)
            lp.pcbody = pc0
            lp.depth = len(self.loops)
            v = getter(ix) if getter is not None else None
            body(v)
            self.loops.pop()
            if lp.continues:
                self.join_paths(lp.continues, lp.pc0)
            dead = self.dead
            if dead == 'gexit':
                # left for good in the first round
                del self.pc[pc0:]
                return
            S1 = self.S if not dead else None
            self.dead = None
            states = ([] if S1 is None else [S1])
            changed = set()
            wide = [k for k in lit for s in states + [
                b[1] for b in lp.breaks] if not self.items_of(
                    s, k, lit[k], lit0[k], uid)]
            if wide:
                for k in wide:
                    for j in lit.pop(k, ()):
                        lvs.pop(('dk', uid, k[1], j), None)
                        closed.pop(('dk', uid, k[1], j), None)
                        del S0[('dk', uid, k[1], j)]
                continue
            for s in states + [b[1] for b in lp.breaks]:
                for k in S0:
                    if k in lit:
                        continue
                    base = closed.get(k, lvs[k]) if k in lvs else S0[k]
                    if k in s and s[k] is not base:
                        changed.add(k)
            new = [k for k in S0 if k in changed and k not in lvs]
            if new:
                for k in new:
                    lids[k] = len(lids)
                    lvs[k] = mk('lv', uid, lids[k], self.lvkind(k, S0[k]))
                    self.lvfirst[lvs[k]] = S0[k]
                    if k[0] in ('v', 'f'):
                        t = self.own.get((k, S0[k]))
                        if t is not None:
                            self.own[(k, lvs[k])] = t
                        if t is None or t in self.given:
                            self.lvinit[lvs[k]] = S0[k]
                continue
            # closed forms for counters and previous values
            again = False
            if S1 is not None and not lp.breaks and cnd is TRUE:
                for k, l in lvs.items():
                    if k in closed:
                        continue
                    s = self.deref_in(S1, S1.get(k, l))
                    d = minus(s, l) if s.op in ('add', 'lv') else None
                    nd = num(d) if d is not None else None
                    if nd is not None and nd != 0 and \
                            kind(S0[k]) in ('int', 'float', 'param', None):
                        closed[k] = add(S0[k], mul(d, ix))
                        again = True
                    elif s is not l and 'lv' not in s.fl and k[0] == 'v' and \
                            s.op != 'ref' and _uses(self, k, l, S1, ev0):
                        init = S0[k]
                        prev = subst(s, {ix: add(ix, const(-1))})
                        closed[k] = ite(eq(ix, ZERO), init, prev)
                        again = True
            if not again:
                break
        else:
            raise Undecided('loop does not stabilise')
        # --- the loop is stable; compute what is after it
        del self.pc[pc0:]
        if whilecond is not None:
            n = _whilecount(self.close_lv(wc, lvs, S0, uid), uid)
        N = n
        brkg = None
        if lp.breaks:
            brkg = and_(cnd, or_(*[and_(*b[0]) for b in lp.breaks]))
            b1 = self.close_lv(brkg, lvs, S0, uid)
            h, (g1,) = close(uid, [b1])
            if b1 is TRUE:
                N = ZERO
            else:
                N = mk('until', h, n, g1)
            ex = mk('exists', h, n, g1) if b1 is not TRUE else ne(n, ZERO)
        out = dict(S0)
        if S1 is None:
            S1 = dict(S0)
            for k, l in lvs.items():
                S1[k] = l
            only_exit = True
        else:
            only_exit = False
        steps = {}
        for k, l in lvs.items():
            v = S1.get(k, l)
            steps[k] = self.deref_loop(S1, S0, v)
        for k, l in lvs.items():
            out[k] = self.after_loop(k, l, steps, lvs, S0, N, uid, cnd,
                                     closed, ix)
            if k[0] in ('v', 'f') and isinstance(out[k], T) and \
                    steps[k] is not l:
                t = self.own.get((k, S0[k]))
                if t is not None:
                    self.own[(k, out[k])] = t
                if t is None or t in self.given:
                    r = self.root_param(steps[k])
                    if r is not None:
                        self.roots[out[k]] = r
        # effects of the iteration that breaks
        if lp.breaks:
            for k in list(lvs):
                vals = []
                base = closed.get(k, lvs[k])
                for g, s in lp.breaks:
                    if k in s and s[k] is not base:
                        vals.append((and_(*g), self.deref_loop(s, S0, s[k])))
                if vals and k in out:
                    r = mk('nobrk')
                    for g, v in vals:
                        r = ite(g, v, r)
                    r = self.close_lv(r, lvs, S0, uid)
                    gg = self.close_lv(brkg, lvs, S0, uid)
                    h, (r1, gg) = close(uid, [r, gg])
                    if not _mentions(r, uid) and 'nobrk' not in r.fl:
                        out[k] = ite(ex, r, out[k])
                    else:
                        out[k] = mk('brk', out[k],
                                    mk('first', h, n, gg, r1))
        for k, ks in lit.items():
            if any(('dk', uid, k[1], j) in lvs for j in ks):
                out[k] = mkdict([(j, out[('dk', uid, k[1], j)]) for j in ks])
            for j in ks:
                del out[('dk', uid, k[1], j)]
        # new variables of live frames
        for k, v in S1.items():
            if k not in S0:
                if k[0] == 'v' and k[1] in self.frames:
                    vv = self.close_lv(self.deref_loop(S1, S0, v), lvs, S0,
                                       uid)
                    if vv.op in ('func', 'class', 'glob', 'mod', 'gen'):
                        out[k] = v
                        continue
                    if not _mentions(vv, uid):
                        out[k] = vv
                        continue
                    h, (vv,) = close(uid, [vv])
                    out[k] = mk('last', h, N, vv, UNDEF)
                elif k[0] in ('h', 'f', 'o'):
                    out[k] = v
        # variables of the iteration that breaks
        for k in sorted(set(k for b in lp.breaks for k in b[1]
                            if k not in S0 and k[0] == 'v' and
                            k[1] in self.frames), key=repr):
            r = mk('nobrk')
            for g, s in lp.breaks:
                if k in s:
                    v = self.deref_loop(s, S0, s[k])
                    r = v if r.op == 'nobrk' else ite(and_(*g), v, r)
            r = self.close_lv(r, lvs, S0, uid)
            if not _mentions(r, uid):
                out[k] = ite(ex, r, out[k]) if k in out else r
                continue
            gg = self.close_lv(brkg, lvs, S0, uid)
            h, (r, gg) = close(uid, [r, gg])
            r = mk('first', h, n, gg, r)
            out[k] = mk('brk', out[k], r) if k in out else r
        self.S = out
        self.dead = None
        # events: remember the loop-carried values by their start
        for e in self.events[ev0:]:
            e.term = self.close_lv(e.term, lvs, S0, uid) \
                if isinstance(e.term, T) else e.term
            e.guard = self.close_lv(e.guard, lvs, S0, uid)
        # returns from inside the loop
        for f in self.stack:
            m = rets0.get(f.fid, 0)
            for j in range(m, len(f.returns)):
                if f.hook is not None:
                    raise Undecided('a generator that ends in a loop')
                g, v, s, lps = f.returns[j]
                gt = self.close_lv(and_(*g), lvs, S0, uid)
                outer = [x for x in g if not _mentions(x, uid)]
                inner = and_(*[x for x in g if _mentions(x, uid)] or [TRUE])
                inner = self.close_lv(inner, lvs, S0, uid)
                vt = self.close_lv(self.deref_loop(s, S0, v), lvs, S0, uid)
                h, (gi, vi) = close(uid, [inner, vt])
                ex = mk('exists', h, n, gi)
                if n is not ZERO and gi is TRUE:
                    ex = ne(n, ZERO)
                nv = mk('first', h, n, gi, vi) if vi is not vt or True else vt
                if not _mentions(vt, uid):
                    nv = vt
                s2 = dict(out)
                f.returns[j] = (outer + [ex], nv, s2, lps[:-1])
                if f is self.stack[-1]:
                    self.assume(not_(and_(*(outer + [ex]))))
        self.broken = ex if lp.breaks else FALSE
        if only_exit and whilecond is None:
            # every iteration leaves the function: no second one
            self.assume(eq(n, ZERO)) if not lp.breaks else None

    def items_of(self, s, k, ks, was, uid):
        """Note the items of a dictionary of known keys; False if it has
        other ones."""
        v = s.get(k, was)
        if v is was:
            return True

        def get(v, j):
            if v.op == 'ite':
                a, b = get(v.a[1], j), get(v.a[2], j)
                return None if a is None or b is None else \
                    self.ite(v.a[0], a, b)
            if v.op == 'dict' and len(v.a) == len(ks) and all(
                    p.a[0] in ks for p in v.a):
                return [p.a[1] for p in v.a if p.a[0] is j][0]
            return None
        r = [get(v, j) for j in ks]
        if any(x is None for x in r):
            return False
        for j, x in zip(ks, r):
            s[('dk', uid, k[1], j)] = x
        return True

    def lvkind(self, key, v):
        c = v
        if c.op == 'ite':
            a, b = self.lvkind(key, c.a[1]), self.lvkind(key, c.a[2])
            return a if a == b else None
        if c.op in ('lv', 'dapp'):
            while c.op == 'dapp':
                c = c.a[1]
            return c.a[2] if c.op == 'lv' else self.lvkind(key, c)
        if key[0] not in ('h', 'dk'):
            return None
        lst = lambda x: kind(self.content(x)) == 'list' and \
            self.content(x).op != 'arr'
        if c.op == 'dmap':
            return 'dictlist' if lst(c.a[3]) else 'dict'
        if c.op == 'dict':
            return 'dictlist' if c.a and all(lst(p.a[1]) for p in c.a) \
                else 'dict'
        if c.op in ('dupd', 'fold', 'setlv') and listdict(c):
            return 'dictlist'
        if c.op in ('dupd',):
            return 'dict'
        if c.op == 'map':
            return 'listlist' if lst(c.a[2]) else 'list'
        if c.op == 'list' and c.a:
            return 'listlist' if all(lst(x) and x.op != 'ref' for x in c.a) \
                else 'list'
        return None

    def deref_in(self, S, v):
        old = self.S
        self.S = S
        try:
            return self.deref(v) if 'ref' in v.fl or v.op == 'ref' else v
        finally:
            self.S = old

    def deref_loop(self, S, S0, v):
        """Replace references created inside the loop body; those from before
        the loop stay."""
        old = self.S
        self.S = S
        try:
            return self._deref_new(v, S0, {})
        finally:
            self.S = old

    def _deref_new(self, v, S0, memo):
        if v in memo:
            return memo[v]
        memo[v] = v
        if v.op == 'ref':
            k = ('h', v.a[0])
            if k in S0:
                return v
            r = self._deref_new(self.S.get(k, UNDEF), S0, memo)
        elif v.op == 'obj':
            cls, args = self.objs[v.a[0]]
            if any(k[0] == 'f' and k[1] == v.a[0] for k in S0):
                return v
            r = self.deref(v)
        elif v.op == 'gen':
            r = self.deref(v)
        elif v.op in ('func',) and ('F', v.a[0]) not in S0:
            return v
        elif v.a and any(isinstance(x, T) for x in v.a):
            na, ch = [], False
            for x in v.a:
                if isinstance(x, T):
                    y = self._deref_new(x, S0, memo)
                    ch = ch or y is not x
                    na.append(y)
                else:
                    na.append(x)
            r = rebuild(v.op, na) if ch else v
        else:
            return v
        memo[v] = r
        return r

    def close_lv(self, t, lvs, S0, uid):
        """Replace loop-carried symbols by a canonical mark."""
        if not isinstance(t, T) or 'lv' not in t.fl:
            return t
        m = {}
        for k, l in lvs.items():
            m[l] = mk('carried', self.deref_in(S0, S0[k])
                      if k in S0 else UNDEF)
        return subst(t, m)

    def after_loop(self, k, l, steps, lvs, S0, N, uid, cnd, closed, ix):
        s = steps[k]
        init = S0[k]
        if k in closed:
            cf = closed[k]
            return subst(cf, {ix: N}) if not cf.op == 'ite' else \
                self.last(init, s, N, uid)
        if s is l:
            return init
        paths = self.paths(s, l)
        if paths is not None:
            c, acts = paths
            if 'lv' not in c.fl and all(
                    'lv' not in a.fl or acts[0] == 'dapp2'
                    for a in acts if isinstance(a, T)):
                kind_ = acts[0]
                cc = and_(cnd, c)
                if kind_ == 'append':
                    h, (v, c2) = close(uid, [acts[1], cc])
                    return seqcat(init, mkmap(h, N, v, c2))
                if kind_ == 'dapp':
                    h, (kk, v, c2) = close(uid, [acts[1], acts[2], cc])
                    return self.dapp(h, init, N, kk, v, c2)
                if kind_ == 'dapp2' and cc is TRUE:
                    return self.dapp2(init, acts[1], N, uid)
                if kind_ == 'extend':
                    h, (v, c2) = close(uid, [acts[1], cc])
                    return seqcat(init, mk('map', h, N, mk('splice', v), c2))
                if kind_ == 'dset':
                    h, (kk, v, c2) = close(uid, [acts[1], acts[2], cc])
                    return dupdate(init, mkdmap(h, N, kk, v, c2))
                if kind_ == 'upd':
                    h, (kk, v, c2) = close(uid, [acts[1], acts[2], cc])
                    return lupd(h, init, N, kk, v, c2)
                if kind_ == 'add' and kind(self.content(init)) == 'list' \
                        and self.content(init).op != 'arr':
                    h, (v, c2) = close(uid, [acts[1], cc])
                    return seqcat(self.content(init), mk(
                        'map', h, N, mk('splice', v), c2))
                if kind_ == 'add':
                    h, (v,) = close(uid, [ite(cc, acts[1], ZERO)])
                    return add(init, lsum(h, N, v))
                if kind_ == 'str':
                    h, (v, c2) = close(uid, [acts[1], cc])
                    return strcat(init, mk('join', const(''),
                                           mkmap(h, N, v, c2)))
        if 'lv' not in s.fl:
            return self.last(init, ite(cnd, s, l) if cnd is not TRUE else s,
                             N, uid)
        r = self.per_key(l, s, init, N, uid, cnd)
        if r is None and cnd is TRUE:
            r = self.each_item(l, s, init, N, uid)
        if r is not None:
            return r
        # general recurrence
        dep, todo = [], [k]
        while todo:
            q = todo.pop()
            if q in dep:
                continue
            dep.append(q)
            for k2, l2 in lvs.items():
                if k2 not in dep and k2 not in closed and \
                        _contains(steps[q], l2):
                    todo.append(k2)
        rest = sorted(dep[1:], key=lambda q: mk(
            'x', self.deref_in(S0, S0[q]), subst(steps[q], dict(
                (lvs[p], mk('carried', ZERO)) for p in dep))).d)
        order = [k] + rest
        accs = [mk('acc', -uid, j) for j in range(len(order))]
        m = dict((lvs[q], accs[j]) for j, q in enumerate(order))
        vals = [subst(ite(cnd, steps[q], lvs[q]), m) for q in order]
        h, vals = close(uid, vals)
        m = dict((x, mk('acc', h, j)) for j, x in enumerate(accs))
        vals = [subst(v, m) for v in vals]
        return mk('fold', h, N, mk('tuple', *[
            self.deref_in(S0, S0[q]) for q in order]), mk('tuple', *vals))

    def each_item(self, l, s, init, N, uid):
        """Every item of a dictionary is changed by itself."""
        d = self.deref(init)
        if s.op not in ('setlv', 'dupd') or s.a[0] is not l or \
                kind(d) != 'dict':
            return None
        ks = keys(d)
        k = sub(ks, mk('ix', uid))
        if s.a[1] is not k or N is not length(d) and N is not length(ks):
            return None
        v = subst(s.a[2], {mk('sub', l, k): sub(d, k)})
        if _contains(v, l):
            return None
        v = self.deref(v)
        h, (k, v) = close(uid, [k, v])
        return mkdmap(h, N, k, v, TRUE)

    def per_key(self, l, s, init, N, uid, cnd):
        """A dictionary of known keys whose items do not depend on each other
        is as many variables."""
        init = self.deref(init)
        if init.op != 'dict' or not init.a or \
                any(p.a[0].op != 'const' for p in init.a):
            return None
        ks = [p.a[0] for p in init.a]
        x = s
        todo, wr = [s], []
        while todo:
            x = todo.pop()
            if x.op == 'ite':
                todo.extend(x.a[1:])
            elif x.op == 'dupd':
                if x.a[1] not in ks:
                    return None
                todo.append(x.a[0])
            elif x is not l:
                return None
        out = []
        for j, k in enumerate(ks):
            at = mk('sub', l, k)
            i0 = dget(init, k)
            lk = mk('lv', uid, ('key', l.a[1], j), kind(i0)
                    if kind(i0) not in ('list', 'dict') else None)
            try:
                sk = lift(lambda q: sub(q, k), [s])
                sk = subst(sk, {at: lk})
            except Undecided:
                return None
            if _contains(sk, l):
                return None
            out.append((k, self.after_loop(
                ('key', k), lk, {('key', k): sk}, {('key', k): lk},
                {('key', k): i0}, N, uid, cnd, {}, mk('ix', uid))))
        return mkdict(out)

    def dapp(self, h, init, N, kk, v, c):
        """for i<N: if c: init[kk] += v   (init: container of lists)"""
        if ('bv', h) not in kk.fl:
            items = v
            if v.op == 'list' and len(v.a) == 1:
                items = mkmap(h, N, v.a[0], c)
            else:
                items = mk('map', h, N, mk('splice', v), c)
            if init.op in ('dict', 'dmap', 'list', 'map'):
                old = dget(init, kk) if kind(init) == 'dict' else \
                    sub(init, kk)
                if old is not None:
                    new = seqcat(self.deref(old), items)
                    return dset(init, kk, new) if kind(init) == 'dict' \
                        else upd(init, kk, new)
        return mk('dapp', h, init, N, kk, v, c)

    def dapp2(self, init, s, N, uid):
        h, _, n, kk, v, c = s.a
        if _mentions(n, uid) or _mentions(kk, uid):
            raise Undecided('nested container update')
        kx = mk('ix', self.fresh())
        kk, v, c = [subst(x, {mk('bv', h): kx}) for x in (kk, v, c)]
        if init.op in ('dmap', 'map'):
            if init.op == 'dmap':
                h0, n0, k0, v0, c0 = init.a
                k0 = subst(k0, {mk('bv', h0): kx})
            else:
                h0, n0, v0, c0 = init.a
                k0 = kx
            v0 = subst(v0, {mk('bv', h0): kx})
            if n0 is n and k0 is kk and c0 is TRUE:
                h1, (vi, ci) = close(uid, [
                    v.a[0] if v.op == 'list' and len(v.a) == 1 else
                    mk('splice', v), c])
                val = seqcat(self.deref(v0), mkmap(h1, N, vi, ci))
                h2, (k2, val) = close(kx.a[0], [kk, val])
                return mkdmap(h2, n, k2, val, TRUE) if init.op == 'dmap' \
                    else mkmap(h2, n, val, TRUE)
        raise Undecided('nested container update')

    def last(self, init, s, N, uid):
        if not _mentions(s, uid):
            return ite(eq(N, ZERO), init, s) if num(N) is None else s
        h, (v,) = close(uid, [s])
        return mk('last', h, N, v, init if init.op != 'ref' else
                  self.deref(init))

    def paths(self, s, l):
        """Decompose the step of a loop-carried value l: what is done to it
        and under which condition."""
        if s is l:
            return FALSE, ('none',)
        if s.op == 'ite':
            a, b = self.paths(s.a[1], l), self.paths(s.a[2], l)
            if a is None or b is None:
                return None
            ca, xa = a
            cb, xb = b
            if xa[0] == 'none':
                return and_(not_(s.a[0]), cb), xb
            if xb[0] == 'none':
                return and_(s.a[0], ca), xa
            if xa[0] != xb[0]:
                return None
            c = or_(and_(s.a[0], ca), and_(not_(s.a[0]), cb))
            def both(p, q):
                if p.op == 'list' and q.op == 'list' and \
                        len(p.a) == len(q.a) == 1:
                    return mk('list', ite(s.a[0], p.a[0], q.a[0]))
                return ite(s.a[0], p, q)
            return c, (xa[0],) + tuple(both(p, q)
                                       for p, q in zip(xa[1:], xb[1:]))
        if s.op == 'lcat' and s.a[0] is l:
            rest = s.a[1:]
            if len(rest) == 1 and rest[0].op in ('list', 'tuple') and \
                    len(rest[0].a) == 1:
                return TRUE, ('append', rest[0].a[0])
            return TRUE, ('extend', seqcat(*rest))
        if s.op in ('dupd', 'upd', 'setlv') and s.a[0] is l:
            v = s.a[2]
            if v.op == 'lcat' and v.a[0].op == 'sub' and v.a[0].a[0] is l \
                    and v.a[0].a[1] is s.a[1]:
                rest = seqcat(*v.a[1:])
                if not _contains(rest, l):
                    return TRUE, ('dapp', s.a[1], rest)
        if s.op == 'dapp' and s.a[1] is l and not any(
                _contains(x, l) for x in s.a[2:]):
            return TRUE, ('dapp2', s)
        if s.op in ('dupd',) and s.a[0] is l:
            return TRUE, ('dset', s.a[1], s.a[2])
        if s.op == 'setlv' and s.a[0] is l:
            return TRUE, ('upd', s.a[1], s.a[2])
        if s.op == 'upd' and s.a[0] is l:
            return TRUE, ('upd', s.a[1], s.a[2])
        if s.op == 'add':
            e = minus(s, l)
            if not _contains(e, l):
                return TRUE, ('add', e)
        if s.op == 'str' and s.a[0] is l:
            return TRUE, ('str', strcat(*s.a[1:]))
        return None

    def while_loop(self, st):
        # a counter loop is a range loop
        test = st.test

        def wc():
            c = self.cond(test)
            self.assume(c)
            return c
        c0 = self.under(self.peek(test))
        if c0 is FALSE:
            self.block(st.orelse)
            return
        self.loop(mk('while', ZERO), TRUE, None,
                  lambda v: self.block(st.body), wc)
        self.after_else(st.orelse)

    def peek(self, e):
        saved = dict(self.S), len(self.events), self.dead
        c = self.cond(e)
        self.S = saved[0]
        del self.events[saved[1]:]
        self.dead = saved[2]
        return c

    # --- iterables

    def iter_view(self, v):
        """(count, getter, condition) of an iterable."""
        c = self.content(v)
        if c.op in ('list', 'tuple'):
            return const(len(c.a)), (lambda i: self.sub_list(c, i)), TRUE
        if c.op == 'arr' and c.a[0].op in ('list', 'tuple'):
            return self.iter_view(c.a[0])
        if c.op == 'map':
            h, n, val, cond = c.a
            f = lambda i: subst(val, {mk('bv', h): i})
            if cond is TRUE:
                return n, f, TRUE
            return n, f, (lambda i: subst(cond, {mk('bv', h): i}))
        if c.op == 'arr':
            return self.iter_view(c.a[0])
        if c.op == 'range':
            lo, hi, step = c.a
            if num(step) == 1:
                n = minus(hi, lo)
                return n, (lambda i: add(lo, i)), TRUE
            if all(num(x) is not None for x in (lo, hi, step)):
                n = len(range(int(num(lo)), int(num(hi)), int(num(step))))
                return const(n), (lambda i: add(lo, mul(step, i))), TRUE
            n = mk('rangelen', lo, hi, step)
            return n, (lambda i: add(lo, mul(step, i))), TRUE
        if c.op == 'iter':
            seq, off = c.a
            r = self.iter_view(seq)
            if r is None:
                return None
            n, g, cond = r
            if off is ZERO:
                return r
            if cond is not TRUE:
                return None
            return minus(n, off), (lambda i: g(add(i, off))), TRUE
        if c.op == 'zip':
            views = [self.iter_view(x) for x in c.a]
            if any(w is None for w in views):
                return None
            if any(w[2] is not TRUE for w in views):
                return self.opaque_iter(c)
            ns = [w[0] for w in views]
            n = ns[0]
            for m in ns[1:]:
                if m is n:
                    continue
                d = num(minus(m, n))
                if d is not None:
                    if d < 0:
                        n = m
                elif num(m) is not None and num(n) is None:
                    n = m
            return n, (lambda i: mk('tuple', *[w[1](i) for w in views])), TRUE
        if c.op == 'enumerate':
            r = self.iter_view(c.a[0])
            if r is None:
                return None
            n, g, cond = r
            if cond is not TRUE:
                return self.opaque_iter(c)
            return n, (lambda i: mk('tuple', add(i, c.a[1]), g(i))), TRUE
        if c.op == 'reversed':
            r = self.iter_view(c.a[0])
            if r is None or r[2] is not TRUE:
                return None
            n, g, _ = r
            return n, (lambda i: g(add(n, const(-1), neg(i)))), TRUE
        if c.op == 'items':
            d = c.a[0]
            if d.op == 'dict':
                ps = [mk('tuple', p.a[0], p.a[1]) for p in d.a]
                return const(len(ps)), (lambda i: mk('list', *ps).a[
                    int(num(i))]), TRUE
            if d.op == 'dmap':
                h, n, k, val, cond = d.a
                f = lambda i: mk('tuple', subst(k, {mk('bv', h): i}),
                                 subst(val, {mk('bv', h): i}))
                cc = TRUE if cond is TRUE else (
                    lambda i: subst(cond, {mk('bv', h): i}))
                return n, f, cc
            ks = keys(d)
            return length(d), (lambda i: mk(
                'tuple', sub(ks, i), sub(d, sub(ks, i)))), TRUE
        if c.op == 'values':
            d = c.a[0]
            r = self.iter_view(mk('items', d))
            return r[0], (lambda i: r[1](i).a[1]), r[2]
        if kind(c) == 'dict':
            r = self.iter_view(mk('items', c))
            return r[0], (lambda i: r[1](i).a[0]), r[2]
        if c.op == 'lcat':
            return length(c), (lambda i: sub(c, i)), TRUE
        if c.op == 'sub' and c.a[1].op == 'slice' and c.a[1].a[2] is NONE:
            lo, hi = c.a[1].a[0], c.a[1].a[1]
            nlo = num(lo) if lo is not NONE else 0
            nhi = num(hi) if hi is not NONE else None
            base = c.a[0]
            if nlo is not None and nlo >= 0 and (hi is NONE or
                                                 nhi is not None and nhi < 0):
                n = add(length(base), numc(-nlo))
                if hi is not NONE:
                    n = add(n, numc(nhi))
                return n, (lambda i: sub(base, add(i, numc(nlo)))), TRUE
        if c.op in ('set', 'smap', 'and', 'or', 'setminus') or \
                kind(c) == 'set':
            return length(c), (lambda i: sub(mk('keys', c), i)), TRUE
        if c.op == 'const' and c.a[0] == 'str':
            s = c.a[1]
            return const(len(s)), (lambda i: const(s[int(num(i))])), TRUE
        if c.op == 'ite':
            # lists of different construction
            return length(c), (lambda i: sub(c, i)), TRUE
        if c.op == 'obj':
            m = self.method(c, '__iter__')
            r = self.call(m, [], []) if m is not None else c
            if r is not c:
                return self.iter_view(r)
            if self.method(c, '__next__') is not None:
                out = self.alloc(mk('list'))
                self.for_each(c, lambda x: self.append(out, x))
                return self.iter_view(out)
        if c.op == 'gen':
            return self.iter_view(self.materialise(c))
        c = self.deref(c)
        return length(c), (lambda i: sub(c, i)), TRUE

    def opaque_iter(self, c):
        return length(c), (lambda i: sub(c, i)), TRUE

    def sub_list(self, c, i):
        if i.op == 'const':
            return c.a[int(num(i))]
        return sub(self.deref(c), i)

    def iterlist(self, v):
        """A list value (ref or term) with the elements of an iterable."""
        c = self.content(v)
        if c.op in ('list', 'tuple', 'map', 'lcat'):
            return v
        if c.op == 'gen':
            return self.materialise(c)
        out = self.alloc(mk('list'))
        self.for_each(v, lambda x: self.append(out, x))
        return out

    def aslist(self, v):
        c = self.content(self.iterlist(v))
        if c.op == 'tuple':
            return mk('list', *c.a)
        return c

    def append(self, ref, x):
        c = self.content(ref)
        if ref.op == 'ref':
            if c.op == 'lv':
                self.S[('h', ref.a[0])] = mk('lcat', c, mk('list', x))
            elif c.op == 'ite':
                self.S[('h', ref.a[0])] = _ite_append(c, x)
            else:
                self.S[('h', ref.a[0])] = seqcat(c, mk('list', x))
        else:
            self.S_append_value(ref, x)

    def S_append_value(self, ref, x):
        raise Undecided('append to a value')

    def materialise(self, g):
        if g in self.matd:
            return self.matd[g]
        out = self.alloc(mk('list'))

        def hook(v):
            self.append(out, v)
            return NONE
        self.run_gen(g, hook)
        if self.dead and self.dead != 'raise':
            self.dead = None
        return out

    @property
    def matd(self):
        return {}

    def run_gen(self, g, hook):
        clo, args = self.gens[g.a[0]]
        self.call_closure(clo, None, None, None, None, bound=args, hook=hook)

    # ------------------------------------------------------------ calls

    def call(self, f, args, kwargs, node=None, star=None):
        """f - value; args - list of values; kwargs - list of (name or None,
        value), None for ** """
        if self.dead:
            return UNDEF
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided('analysis budget')
        if f.op == 'ref':
            f = self.content(f)
        if f.op == 'ite':
            res = []

            def one(g):
                def go():
                    res.append(self.call(g, args, kwargs, node))
                return go
            self.branch(f.a[0], one(f.a[1]), one(f.a[2]))
            if len(res) == 2:
                return self.ite(f.a[0], res[0], res[1])
            return res[0] if res else UNDEF
        if f.op == 'func':
            clo = self.funcs[f.a[0]]
            if clo.name in self.opaque:
                return self.opaque_call(clo, args, kwargs)
            return self.call_closure(clo, args, kwargs, None, None)
        if f.op == 'bound':
            return self.call(f.a[1], [f.a[0]] + list(args), kwargs, node)
        if f.op == 'class':
            return self.instantiate(f, args, kwargs)
        if f.op == 'obj':
            m = self.method(f, '__call__')
            if m is not None:
                return self.call(m, args, kwargs, node)
        if f.op == 'super':
            return f
        if f.op == 'partial':
            return self.call(f.a[0], list(f.a[1].a) + list(args),
                             list(kwargs) + [(p.a[0], p.a[1])
                                             for p in f.a[2].a])
        return self.lib.call(f, args, kwargs, node)

    def bind(self, clo, args, kwargs):
        """Bind arguments to parameters. Returns dict name -> value."""
        a = clo.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = {}
        stars = []
        for k, v in kwargs:
            if k is None:
                c = self.content(v)
                if c.op == 'dict':
                    for p in c.a:
                        if p.a[0].op == 'const':
                            kw[p.a[0].a[1]] = p.a[1]
                        else:
                            stars.append(mkdict([(p.a[0], p.a[1])]))
                else:
                    stars.append(c)
            else:
                kw[k] = v
        extra = []
        nd = len(clo.defaults)
        dflt = dict(zip(names[len(names) - nd:], clo.defaults))
        for j, v in enumerate(args):
            if v.op == 'starred':
                c = self.content(v.a[0])
                c = self.content(self.iterlist(c)) if c.op == 'gen' else c
                for m in range(j, len(names)):
                    if names[m] in kw or m - j >= 12:
                        break
                    if a.vararg is None or True:
                        out[names[m]] = self.getitem(c, const(m - j))
                break
            if j < len(names):
                out[names[j]] = v
            else:
                extra.append(v)
        for nme in [x.arg for x in a.kwonlyargs] + names:
            if nme in out:
                continue
            if nme in kw:
                out[nme] = kw.pop(nme)
            else:
                for s in stars:
                    r = self.star_get(self.deref(s), const(nme),
                                      dflt.get(nme))
                    if r is not None:
                        out[nme] = r
        for nme, d in zip(names[len(names) - nd:], clo.defaults):
            if nme not in out:
                out[nme] = d
        for x, d in zip(a.kwonlyargs, clo.kwdefaults):
            if x.arg not in out and d is not None:
                out[x.arg] = d
        missing = [n for n in names if n not in out]
        bad = bool(missing) or (extra and a.vararg is None) or \
            (kw and a.kwarg is None and not stars)
        if bad:
            self.event('raise', 'TypeError', mk('badcall', clo.name))
            self.dead = 'raise'
            return None
        if a.vararg is not None:
            out[a.vararg.arg] = mk('tuple', *extra)
        if a.kwarg is not None:
            rest = mkdict([(const(k), v) for k, v in kw.items()])
            for s in stars:
                s = self.deref(s)
                used = [const(n) for n in names if n in out]
                s = dminus(s, used)
                rest = dupdate(s, rest) if s.op == 'dict' or rest.a else s
                if rest.op == 'dupdate':
                    rest = s
                    for k, v in kw.items():
                        rest = dset(rest, const(k), v)
            out[a.kwarg.arg] = self.alloc(rest)
        return out

    def star_get(self, s, key, default):
        """What ``**s`` gives for a parameter; None if nothing."""
        if s.op == 'ite':
            x = self.star_get(s.a[1], key, default)
            y = self.star_get(s.a[2], key, default)
            if x is None and y is None:
                return None
            x = x if x is not None else default
            y = y if y is not None else default
            m = mk('missing', 'argument %s' % key.a[1])
            return ite(s.a[0], m if x is None else x, m if y is None else y)
        if s.op == 'dupd':
            e = eq(s.a[1], key)
            if e is TRUE:
                return s.a[2]
            if e is FALSE:
                return self.star_get(s.a[0], key, default)
        r = dget(s, key)
        if r is None and s.op == 'dmap' and s.a[3].op != 'bv':
            h = inn(key, s)
            if h is not FALSE:
                raise Undecided('arguments of a dictionary')
        return r

    def opaque_call(self, clo, args, kwargs):
        """A function an obligation takes as given: the call stays a call,
        its arguments in the order of the parameters."""
        b = self.bind(clo, args, kwargs)
        if b is None:
            return UNDEF
        a = clo.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for x in (a.vararg, a.kwarg):
            if x is not None:
                names.append(x.arg)
        r = mk('call', mk('glob', clo.name), mk('tuple'), mk('kw', *[
            mk('kwp', n, self.deref(b[n])) for n in sorted(names)]))
        k = self.opaque[clo.name]
        if k:
            OPAQUE_KIND[clo.name] = k
        self.event('call', clo.name, r)
        return r

    def call_closure(self, clo, args, kwargs, node, star, bound=None,
                     hook=None):
        if bound is None:
            bound = self.bind(clo, args, kwargs)
            if bound is None:
                return UNDEF
        if clo.gen and hook is None:
            k = self.fresh()
            self.gens[k] = (clo, bound)
            return mk('gen', k)
        depth = len(self.stack)
        if depth > 40 or sum(1 for f in self.stack if f.clo is clo) > 2:
            raise Undecided('recursion in ' + str(clo.name))
        self.called.add(clo.name)
        fr = Frame(self.fresh(), clo.module, None, clo)
        fr.pc0 = len(self.pc)
        fr.hook = hook
        self.frames[fr.fid] = fr
        self.stack.append(fr)
        mark = fr.fid
        for n, v in bound.items():
            k = ('v', fr.fid, n)
            self.S[k] = v
            tk = self.argtok.get(v)
            if tk is not None and not (isinstance(tk, tuple) and
                                       tk[0] == 't'):
                self.own[(k, v)] = tk
        self.argtok = {}
        src = Cur.src
        loops0 = self.loops
        self.loops = list(self.loops)
        line = self.line
        if isinstance(clo.node, ast.Lambda):
            r = self.ev(clo.node.body)
            fr.rtoks.append(self.token(clo.node.body))
            fr.returns.append((self.pc_slice(fr.pc0), r, self.S, ()))
        else:
            self.block(clo.node.body)
            if not self.dead:
                fr.returns.append((self.pc_slice(fr.pc0), NONE, self.S, ()))
        self.rettok = self.one_token(fr.rtoks, mark)
        self.loops = loops0
        self.line = line
        Cur.src = src
        del self.pc[fr.pc0:]
        self.stack.pop()
        dead = self.dead
        if dead == 'gexit':
            if fr.returns:
                raise Undecided('a generator that is left and returns')
            return UNDEF
        if dead in ('break', 'continue', 'gstop') and hook is not None:
            if not fr.returns:
                return UNDEF
        self.dead = None
        if not fr.returns:
            self.dead = 'raise' if dead in ('raise', 'mixed', 'return') \
                else dead
            if dead == 'gstop':
                self.dead = 'gstop'
            return UNDEF
        g, val, S, _ = fr.returns[-1]
        if len(fr.returns) > 1:
            S = dict(S)
        for g, v, s, _ in reversed(fr.returns[:-1]):
            c = and_(*g)
            val = self.ite(c, v, val)
            S = self.merge(c, s, S)
        self.S = S
        # drop the frame, unless closures need it
        if not any(c.fid == fr.fid for c in self.funcs.values()):
            for k in [k for k in self.S if k[0] == 'v' and k[1] == fr.fid]:
                del self.S[k]
        return val

    def one_token(self, toks, mark):
        if not toks or None in toks:
            return None
        if all(isinstance(t, tuple) and t[0] == 't' for t in toks):
            if len(set(len(t[1]) for t in toks)) != 1:
                return None
            return 't', [self.one_token([t[1][i] for t in toks], mark)
                         for i in range(len(toks[0][1]))]
        if len(set(map(str, toks))) == 1:
            return toks[0]
        if all(isinstance(t, int) and t > mark for t in toks):
            return self.fresh()
        return None

    def instantiate(self, cref, args, kwargs):
        cls = self.classes[cref.a[0]]
        if not self.concrete_sets:
            for c in cls.mro(self):
                if c.name in MODELLED:
                    if c is not cls:
                        break
                    return self.new_modelled(c, args, kwargs)
        if any(b.op == 'glob' and (b.a[0].endswith('Exception') or
               b.a[0].endswith('Error')) for b in cls.bases):
            return mk('excval', cls.name)
        for c in cls.mro(self):
            if c.bad:
                raise Undecided(c.bad)
        k = self.fresh()
        o = mk('obj', k)
        init = None
        self.objs[k] = (cls, [])
        init = self.find_in_class(cls, '__init__')
        argl = []
        self.S[('f', k, '__class__')] = cref
        if init is not None and init.op == 'func':
            clo = self.funcs[init.a[0]]
            b = self.bind(clo, [o] + list(args), kwargs)
            if b is None:
                return UNDEF
            first = (clo.node.args.args or [None])[0]
            argl = [(n, v) for n, v in b.items()
                    if first is None or n != first.arg]
            self.objs[k] = (cls, argl)
            self.call_closure(clo, None, None, None, None, bound=b)
        return o

    def new_modelled(self, c, args, kwargs):
        names = CTOR[c.name]
        d = mkdict([])
        for k, v in kwargs:
            if k is None:
                d = dupdate(self.deref(v), d) if d.a else self.deref(v)
        for k, v in kwargs:
            if k is not None:
                d = dset(d, const(k), self.deref(v))
        for n, v in zip(names, args):
            if v.op == 'starred':
                raise Undecided('star arguments')
            d = dset(d, const(n), self.deref(v))
        t = mk('new', c.name.rsplit('.', 1)[1], d)
        return t

    # --- attributes

    def find_in_class(self, cls, name):
        for c in cls.mro(self):
            if name in c.ns:
                return c.ns[name]
        return None

    def find_method(self, o, name):
        return self.find_in_class(self.objs[o.a[0]][0], name)

    def method(self, o, name):
        m = self.find_method(o, name)
        if m is None:
            return None
        return self.bind_method(o, m)

    def bind_method(self, o, m):
        if m.op == 'func':
            k = self.funcs[m.a[0]].kind
            if k == 'static':
                return m
            if k == 'class':
                return mk('bound', self.S[('f', o.a[0], '__class__')], m)
            return mk('bound', o, m)
        return m

    def getattr(self, b, name):
        if b.op == 'ref':
            c = self.content(b)
        else:
            c = b
        if c.op == 'ite' and (c.a[1].op in ('obj', 'new', 'mod', 'ite') or
                              c.a[2].op in ('obj', 'new', 'mod')):
            return self.ite(c.a[0], self.getattr(c.a[1], name),
                            self.getattr(c.a[2], name))
        if c.op == 'obj':
            v = self.S.get(('f', c.a[0], name))
            if v is not None:
                return v
            if name == '__dict__':
                return mk('objdict', c.a[0])
            m = self.find_method(c, name)
            if m is not None:
                if m.op == 'func' and self.funcs[m.a[0]].kind == 'property':
                    return self.call_closure(self.funcs[m.a[0]], [c], [],
                                             None, None)
                return self.bind_method(c, m)
            ga = self.find_method(c, '__getattr__')
            if ga is not None:
                return self.call(self.bind_method(c, ga), [const(name)], [])
            return mk('missing', name)
        if c.op == 'mod':
            return self.from_mod(c.a[0], name)
        if c.op == 'class':
            m = self.find_in_class(self.classes[c.a[0]], name)
            if m is not None:
                if m.op == 'func' and self.funcs[m.a[0]].kind == 'class':
                    return mk('bound', c, m)
                return m
            if name == '__name__':
                return const(c.a[0].rsplit('.', 1)[1])
            return mk('attr', c, name)
        if c.op == 'super':
            o, start = c.a
            mro = self.objs[o.a[0]][0].mro(self)
            names = [q.name for q in mro]
            i = names.index(start) + 1 if start in names else 1
            for q in mro[i:]:
                if name in q.ns:
                    return self.bind_method(o, q.ns[name])
            return mk('glob', 'object.' + name)
        if c.op == 'glob':
            return glob_term(c.a[0] + '.' + name)
        return self.lib.getattr(b, c, name)

    def sub(self, b, i):
        return sub(b, i)

    def getitem(self, b, i):
        c = self.content(b)
        if b.op == 'ref' and b.a[0] in self.factories and \
                kind(c) == 'dict':
            k = self.deref(i)
            h = inn(k, self.deref(c))
            if h is not TRUE:
                v = self.call(self.factories[b.a[0]], [], [])
                if h is FALSE:
                    self.S[('h', b.a[0])] = dset(c, k, v)
                    return v
                cur = ite(h, sub(self.deref(c), k), self.deref(v))
                self.S[('h', b.a[0])] = mk('dupd', self.deref(c), k, cur)
                return cur
        if c.op == 'objdict':
            k = self.fieldname(i)
            if isinstance(k, str):
                return self.getattr(mk('obj', c.a[0]), k)
            v = self.S.get(('f', c.a[0], k))
            if v is not None:
                return v
            return mk('sub', mk('objd'), self.deref(i))
        if c.op == 'obj':
            m = self.method(c, '__getitem__')
            if m is not None:
                return self.call(m, [i], [])
        if c.op == 'attr' and c.a[1] == '__dict__':
            k = self.fieldname(i)
            if isinstance(k, str):
                return self.getattr(c.a[0], k)
        if c.op == 'setdict':
            k = self.fieldname(i)
            if isinstance(k, str):
                return self.getattr(c.a[0], k)
            return mk('accessork', c.a[0], k)
        if c.op == 'cfgsec':
            return self.lib.method(c.a[0], 'get', [c.a[1], i], [], None)
        if c.op in ('cfg', 'dupd', 'dminus', 'param') and self.lib.iscfg(c):
            return mk('cfgsec', b, self.deref(i))
        if c.op in ('gen', 'iter', 'zip', 'enumerate', 'items', 'values',
                    'range', 'reversed'):
            c = self.content(self.iterlist(b))
        if c.op in ('list', 'tuple') and i.op == 'const':
            # keep references inside containers
            r = sub(c, i)
            return r
        if c.op in ('dict', 'dupd') and 'ref' in c.fl:
            r = dget(c, self.deref(i))
            if r is not None:
                return r
        if c.op == 'dict' and i.op != 'const' and \
                self.deref(i).op != 'const' and any(
                    t[1] and t[1] != 'finally' for t in self.tries):
            raise Undecided('a lookup that may fail')
        if c.op in ('dict', 'list', 'tuple') and 'ref' in c.fl:
            i = self.deref(i)
            if i.op == 'ite' and leaves(i) <= 6:
                return self.ite(i.a[0], self.getitem(b, i.a[1]),
                                self.getitem(b, i.a[2]))
            r = choose(c, i)
            if r is not None:
                return r
        return sub(self.deref(c), self.deref(i))

    # ------------------------------------------------------------ expressions

    def ev(self, e):
        if hasattr(e, 'lineno'):
            Cur.src = (self.path(), e.lineno)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression ' + type(e).__name__)
        return m(e)

    def cond(self, e):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out = []
            npc = len(self.pc)
            for x in e.values:
                c = self.under(self.cond(x))
                if c is (FALSE if isand else TRUE):
                    out.append(c)
                    break
                out.append(c)
                self.assume(c if isand else not_(c))
            del self.pc[npc:]
            return (and_ if isand else or_)(*out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand))
        v = self.ev(e)
        c = self.content(v)
        if c.op == 'obj':
            m = self.method(c, '__len__')
            if m is not None:
                return ne(self.deref(self.call(m, [], [])), ZERO)
            return TRUE
        return truth(self.deref(c) if c.op not in ('list', 'dict', 'tuple')
                     else c)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.getvar(e.id)

    def none_used(self, b, how):
        """A note of the use of a value that is or may be None."""
        if not isinstance(b, T) or self.tries or \
                b.op not in ('const', 'ref', 'ite', 'param'):
            return
        b = self.deref(b)
        if b is NONE:
            self.event('none', how, mk('none', const(how), NONE))
            return
        if b.op == 'ite' and NONE in b.a[1:3]:
            c = b.a[0] if b.a[1] is NONE else not_(b.a[0])
        elif b.op == 'param' and kind(b) == 'opt':
            c = isnone(b)
        else:
            return
        g = self.under(c)
        if g is not FALSE and and_(self.guard(), c) is not FALSE:
            self.event('none', how, mk('none', const(how), b), c)

    def e_Attribute(self, e):
        b = self.ev(e.value)
        self.none_used(b, 'attribute ' + e.attr)
        name = self.mangle(e.attr)
        return self.getattr(b, name)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.deref(self.ev(x))
            return mk('slice', f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return mk('tuple', *[self.deref(self.ev_index(x))
                                 for x in s.elts])
        return self.ev(s)

    def e_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev_index(e.slice)
        self.none_used(b, 'an item')
        if b.op == 'glob' and b.a[0] in ('numpy.r_', 'numpy.c_', 'numpy.s_'):
            items = i.a if i.op == 'tuple' else (i,)
            self.ctok[e] = self.fresh()
            return self.lib.r_(b.a[0], [self.deref(x) for x in items])
        self.ctok.pop(e, None)
        if isinstance(e.slice, ast.Slice) and kind(self.content(b)) in (
                'list', 'tuple') and self.content(b).op != 'arr':
            self.ctok[e] = ('c', self.fresh())
        elif copies(self.deref(i)) and kind(self.content(b)) not in (
                'list', 'dict', 'tuple'):
            self.ctok[e] = self.fresh()
        return self.getitem(b, i)

    def e_Slice(self, e):
        return self.ev_index(e)

    def e_Starred(self, e):
        return mk('starred', self.ev(e.value))

    def e_Tuple(self, e):
        return mk('tuple', *self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                c = self.content(self.iterlist(self.ev(x.value)))
                if c.op in ('list', 'tuple'):
                    out.extend(c.a)
                else:
                    raise Undecided('star in a display')
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            c = mk('list')
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    c = seqcat(c, self.aslist(self.ev(x.value)))
                else:
                    c = seqcat(c, mk('list', self.ev(x)))
            return self.alloc(c)
        return self.alloc(mk('list', *[self.ev(x) for x in e.elts]))

    def e_Set(self, e):
        return mk('set', *sorted([self.deref(self.ev(x)) for x in e.elts],
                                 key=lambda t: t.d))

    def e_Dict(self, e):
        d = mkdict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = dupdate(d, self.content(self.ev(v)))
            else:
                kk = self.deref(self.ev(k))
                d = dset(d, kk, self.ev(v))
        return self.alloc(d)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        ca, cb = self.content(a), self.content(b)
        if op == 'Mod' and kind(ca) == 'str' or op == 'Mod' and \
                ca.op == 'const' and ca.a[0] == 'str':
            return self.lib.percent(ca, cb)
        if op == 'Add' and (kind(ca) == 'list' and kind(cb) == 'list'
                            and ca.op != 'arr' and cb.op != 'arr'):
            return self.alloc(seqcat(ca, cb))
        if op == 'Mult' and kind(ca) in ('list',) and ca.op != 'arr' or \
                op == 'Mult' and kind(cb) in ('list',) and cb.op != 'arr':
            return self.alloc(mul(self.deref(a), self.deref(b)))
        self.none_used(a, 'an operand of ' + op)
        self.none_used(b, 'an operand of ' + op)
        a, b = self.deref(a), self.deref(b)
        return binop(op, a, b)

    def e_UnaryOp(self, e):
        op = type(e.op).__name__
        if op == 'Not':
            return not_(self.cond(e.operand))
        v = self.deref(self.ev(e.operand))
        if op == 'USub':
            return neg(v)
        if op == 'UAdd':
            return v
        return lift(not_, [v])

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = []
        npc = len(self.pc)
        res = None
        stack = []
        for x in e.values:
            v = self.ev(x)
            t = self.under(truth(self.deref(v)))
            stack.append((t, v))
            if t is (FALSE if isand else TRUE):
                break
            self.assume(t if isand else not_(t))
        del self.pc[npc:]
        t, v = stack[-1]
        for t2, v2 in reversed(stack[:-1]):
            if isand:
                v = self.ite(t2, v, v2)
            else:
                v = self.ite(t2, v2, v)
        return v

    def e_Compare(self, e):
        l = self.ev(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r)
            out.append(self.compare(type(op).__name__, l, rv))
            l = rv
        return and_(*out)

    def compare(self, op, a, b):
        if op in ('Lt', 'LtE', 'Gt', 'GtE'):
            self.none_used(a, 'an operand of ' + op)
            self.none_used(b, 'an operand of ' + op)
        if op in ('Is', 'IsNot'):
            ca, cb = self.content(a), self.content(b)
            if cb is NONE or ca is NONE:
                r = isnone(ca if cb is NONE else cb)
            elif cb in (TRUE, FALSE) or ca in (TRUE, FALSE):
                x, y = (ca, cb) if cb in (TRUE, FALSE) else (cb, ca)
                if kind(x) == 'bool':
                    r = x if y is TRUE else not_(x)
                else:
                    r = mk('is', x, y)
            elif a is b:
                r = TRUE
            elif a.op == 'ref' and b.op == 'ref':
                r = FALSE
            else:
                x, y = self.deref(a), self.deref(b)
                r = TRUE if x is y else mk('is', *sorted(
                    [x, y], key=lambda t: t.d))
                if x.op == 'ite' or y.op == 'ite':
                    r = lift(lambda p, q: TRUE if p is q else mk(
                        'is', *sorted([p, q], key=lambda t: t.d)), [x, y])
            return r if op == 'Is' else not_(r)
        if op in ('In', 'NotIn'):
            x = self.deref(a)
            cb = self.content(b)
            if cb.op == 'obj':
                m = self.method(cb, '__contains__')
                if m is None:
                    raise Undecided('membership in an object')
                r = truth(self.deref(self.call(m, [a], [])))
                return r if op == 'In' else not_(r)
            if cb.op in ('gen', 'zip', 'iter', 'range', 'enumerate'):
                cb = self.content(self.iterlist(b))
            if cb.op == 'objdict':
                k = self.fieldname(x)
                r = const(('f', cb.a[0], k) in self.S)
            elif cb.op == 'cfgsec':
                r = truth(self.deref(self.lib.method(
                    cb.a[0], 'has_option', [cb.a[1], x], [], None)))
            elif cb.op == 'cfg' or cb.op in ('dupd', 'dminus', 'param') and \
                    self.lib.iscfg(cb):
                r = truth(self.deref(self.lib.method(
                    b, 'has_section', [x], [], None)))
            else:
                r = inn(x, self.deref(cb))
            return r if op == 'In' else not_(r)
        x, y = self.deref(a), self.deref(b)
        return compare(op, x, y)

    def e_IfExp(self, e):
        c = self.under(self.cond(e.test))
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        res = {}

        def a():
            res['a'] = self.ev(e.body)

        def b():
            res['b'] = self.ev(e.orelse)
        self.branch(c, a, b)
        return self.ite(c, res.get('a', UNDEF), res.get('b', UNDEF))

    def e_Lambda(self, e):
        return self.mkfunc(e, '<lambda>')

    def e_Call(self, e):
        f = self.ev(e.func)
        fl = f
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                c = self.content(v)
                if c.op in ('gen', 'zip', 'iter', 'range', 'enumerate',
                            'items', 'values'):
                    c = self.content(self.iterlist(v))
                if c.op in ('list', 'tuple'):
                    args.extend(c.a)
                elif c.op == 'ite' and c.a[1].op in ('list', 'tuple') and \
                        c.a[2].op == c.a[1].op and \
                        len(c.a[1].a) == len(c.a[2].a):
                    args.extend(ite(c.a[0], p, q) for p, q in
                                zip(c.a[1].a, c.a[2].a))
                else:
                    args.append(mk('starred', v))
            else:
                args.append(self.ev(x))
        kwargs = []
        for k in e.keywords:
            kwargs.append((k.arg, self.ev(k.value)))
        if self.dead:
            return UNDEF
        Cur.src = (self.path(), e.lineno)
        # super() with the class of the enclosing method
        if f.op == 'glob' and f.a[0] == 'super':
            fr = self.stack[-1]
            names = [a.arg for a in fr.clo.node.args.args]
            o = self.S[('v', fr.fid, names[0])]
            return mk('super', o, fr.cls.name)
        toks = {}
        for x, v in list(zip(e.args, args)) + [
                (k.value, v) for k, (_, v) in zip(e.keywords, kwargs)]:
            if isinstance(x, ast.Starred):
                break
            toks[v] = self.token(x) if v not in toks or \
                toks[v] == self.token(x) else None
        self.argtok = toks
        self.rettok = None
        r = self.call(f, args, kwargs, e)
        self.argtok = {}
        self.ctok[e] = self.rettok if f.op in ('func', 'bound') else \
            self.call_token(e, f, r)
        self.rettok = None
        Cur.src = (self.path(), e.lineno)
        return r

    def comp(self, gens, k, emit):
        if k == len(gens):
            emit()
            return
        g = gens[k]
        it = self.ev(g.iter)

        def body(v):
            self.assign(g.target, v)

            def conds(j):
                if j == len(g.ifs):
                    self.comp(gens, k + 1, emit)
                    return
                c = self.cond(g.ifs[j])
                self.branch(c, lambda: conds(j + 1), lambda: None)
            conds(0)
        self.for_each(it, body)

    def comp_scope(self, e, emit):
        # names bound by a comprehension are its own
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fid = self.stack[-1].fid
        saved = dict((n, self.S.get(('v', fid, n))) for n in names)
        self.comp(e.generators, 0, emit)
        for n, v in saved.items():
            if v is None:
                self.S.pop(('v', fid, n), None)
            else:
                self.S[('v', fid, n)] = v

    def e_ListComp(self, e):
        out = self.alloc(mk('list'))
        self.comp_scope(e, lambda: self.append(out, self.ev(e.elt)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        out = self.alloc(mk('list'))
        self.comp_scope(e, lambda: self.append(out, self.ev(e.elt)))
        return toset(self.deref(out))

    def e_DictComp(self, e):
        out = self.alloc(mkdict([]))

        def emit():
            k = self.deref(self.ev(e.key))
            v = self.ev(e.value)
            c = self.content(out)
            self.S[('h', out.a[0])] = mk('dupd', c, k, v) \
                if c.op == 'lv' else dset(c, k, v)
        self.comp_scope(e, emit)
        return out

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.deref(self.ev(v.value))
                spec = 's'
                if v.format_spec is not None:
                    s = self.deref(self.ev(v.format_spec))
                    if s.op == 'const':
                        spec = s.a[1] or 's'
                    else:
                        raise Undecided('format spec')
                if v.conversion == 114:
                    spec = 'r'
                parts.append(fmtv(spec, x))
        return strcat(*parts)

    def e_FormattedValue(self, e):
        return fmtv('s', self.deref(self.ev(e.value)))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Yield(self, e):
        v = NONE if e.value is None else self.ev(e.value)
        fr = self.stack[-1]
        self.event('yield', fr.lname, const('yield'))
        if fr.hook is None:
            raise Undecided('yield outside a generator')
        hook = fr.hook
        r = hook(v)
        return r

    def e_YieldFrom(self, e):
        it = self.ev(e.value)
        fr = self.stack[-1]
        self.for_each(it, lambda v: fr.hook(v))
        return NONE


SHARES = frozenset([
    'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.require',
    'numpy.broadcast_to', 'numpy.broadcast_arrays', 'numpy.array_split',
    'numpy.hsplit', 'numpy.vsplit', 'numpy.dsplit', 'numpy.real',
    'numpy.imag', 'numpy.nditer', 'numpy.ndenumerate', 'numpy.atleast_3d',
    'numpy.ma.asarray', 'numpy.lib.stride_tricks.as_strided'])
# methods whose result is new
MAKES = frozenset([
    'copy', 'flatten', 'astype', 'sum', 'mean', 'cumsum', 'dot', 'min',
    'max', 'any', 'all', 'argsort', 'nonzero', 'round', 'clip', 'repeat',
    'take', 'prod', 'std', 'var', 'tolist', 'argmin', 'argmax', 'format',
    'join', 'read_where', 'col', 'read'])
VIEWS = frozenset([
    'numpy.transpose', 'numpy.reshape', 'numpy.ravel', 'numpy.squeeze',
    'numpy.swapaxes', 'numpy.atleast_1d', 'numpy.atleast_2d',
    'numpy.asarray', 'numpy.expand_dims', 'numpy.moveaxis', 'numpy.split',
    'numpy.diagonal', 'numpy.rollaxis'])


def targets(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def inplace(body):
    """Names whose value is changed in place by the statements."""
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Assign):
                ts = x.targets
            elif isinstance(x, ast.AugAssign):
                ts = [x.target]
                if isinstance(x.target, ast.Name):
                    yield x.target.id
            elif isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in (
                        'fill', 'sort', 'put', 'resize', 'partition'):
                ts = [ast.Subscript(value=x.func.value)]
            else:
                continue
            for t in ts:
                for y in ast.walk(t):
                    if isinstance(y, ast.Subscript) and isinstance(
                            y.value, ast.Name):
                        yield y.value.id


def as_place(e):
    """d.setdefault(k, ..) is d[k] afterwards"""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
            e.func.attr == 'setdefault' and e.args:
        return ast.copy_location(ast.Subscript(
            value=e.func.value, slice=e.args[0], ctx=ast.Load()), e)
    return e


def copies(i):
    """Indexing an array this way is known to copy."""
    if i.op == 'tuple':
        return any(copies(x) for x in i.a)
    return i.op in ('list', 'lt', 'le', 'eq', 'ne') or \
        i.op == 'call' and i.a[0].op == 'glob' and i.a[0].a[0] in (
            'numpy.nonzero', 'numpy.argsort', 'numpy.isin', 'numpy.isnan',
            'numpy.isfinite', 'numpy.flatnonzero')


def binop(op, a, b):
    if op == 'Add':
        return add(a, b)
    if op == 'Sub':
        return minus(a, b)
    if op == 'Mult':
        return mul(a, b)
    if op == 'Div':
        return div(a, b)
    if op == 'Pow':
        return power(a, b)
    if op == 'BitAnd':
        return lift(and_, [a, b])
    if op == 'BitOr' and kind(a) == kind(b) == 'dict':
        return dupdate(a, b)
    if op == 'BitOr':
        return lift(or_, [a, b])
    na, nb = num(a), num(b)
    if op == 'FloorDiv':
        if na is not None and nb:
            return numc(na // nb)
        return mk('floordiv', a, b)
    if op == 'Mod':
        if na is not None and nb:
            return numc(na % nb)
        return mk('mod', a, b)
    if op == 'MatMult':
        return mk('matmul', a, b)
    if op == 'BitXor':
        return mk('xor', a, b)
    return mk('bin' + op, a, b)


def compare(op, x, y):
    if op == 'Eq':
        return eq(x, y)
    if op == 'NotEq':
        return ne(x, y)
    if op == 'Lt':
        return lt(x, y)
    if op == 'LtE':
        return le(x, y)
    if op == 'Gt':
        return lt(y, x)
    if op == 'GtE':
        return le(y, x)
    raise Undecided(op)


def toset(x):
    if x.op == 'ite':
        return ite(x.a[0], toset(x.a[1]), toset(x.a[2]))
    if x.op in ('list', 'tuple'):
        d = dict((y.d, y) for y in x.a)
        return mk('set', *[d[k] for k in sorted(d)])
    if x.op == 'map':
        return mk('smap', *x.a)
    return mk('call', mk('glob', 'set'), mk('tuple', x), mk('kw'))


def ddel(d, k):
    if d.op == 'dict':
        return mkdict([(p.a[0], p.a[1]) for p in d.a if p.a[0] is not k])
    return dminus(d, [k])


def dminus(d, ks):
    if d.op == 'dict':
        return mkdict([(p.a[0], p.a[1]) for p in d.a if p.a[0] not in ks])
    if d.op == 'dupd' and d.a[1] in ks:
        return dminus(d.a[0], ks)
    if d.op == 'dupd' and d.a[1].op == 'const':
        return dset(dminus(d.a[0], ks), d.a[1], d.a[2])
    if d.op == 'dmap':
        h, n, k, v, c = d.a
        return mkdmap(h, n, k, v, and_(c, *[ne(k, q) for q in ks]))
    if not ks:
        return d
    return mk('dminus', d, *sorted(ks, key=lambda t: t.d))


def _ite_append(c, x):
    if c.op == 'ite':
        return ite(c.a[0], _ite_append(c.a[1], x), _ite_append(c.a[2], x))
    if c.op == 'lv':
        return mk('lcat', c, mk('list', x))
    return seqcat(c, mk('list', x))


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _hname(h):
    if h.type is None:
        return 'all'
    n = ast.unparse(h.type)
    return 'all' if n in ('Exception', 'BaseException') else n


def _excname(e):
    if e.op == 'excval':
        return e.a[0]
    if e.op == 'glob':
        return e.a[0]
    if e.op == 'call' and e.a[0].op == 'glob':
        return e.a[0].a[0]
    if e.op == 'class':
        return e.a[0]
    return e.op


def _is_main(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and \
        t.left.id == '__name__'


def _is_gen(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


_sp = {}


def _hasspecial(v):
    r = _sp.get(v)
    if r is None:
        r = v.op in ('obj', 'gen', 'func', 'ref') or any(
            isinstance(x, T) and _hasspecial(x) for x in v.a)
        _sp[v] = r
    return r


def _conj(c):
    return c.a if c.op == 'and' else (c,)


def _litlist(c):
    return c.op in ('list', 'tuple', 'map', 'lcat') or c.op == 'ite' and (
        _litlist(c.a[1]) or _litlist(c.a[2]))


def _whilecount(wc, uid):
    """Number of iterations of a loop that runs while wc(iteration)."""
    ix = mk('ix', uid)
    if wc.op in ('lt', 'le'):
        a, b = wc.a
        d = minus(b, a)             # runs while 0 < d or 0 <= d
        lin, k = _terms._linear(d)
        if lin.get(ix) == -1:
            rest = add(d, ix)
            if not _mentions(rest, uid):
                return rest if wc.op == 'lt' else add(rest, ONE)
    h, (c,) = close(uid, [wc])
    return mk('whilen', h, c)


def _hasref(v):
    return 'ref' in v.fl or _hasspecial(v)


def _hasgen(v):
    return v.op == 'gen' or v.op == 'ite' and (_hasgen(v.a[1]) or
                                               _hasgen(v.a[2]))


def _contains(t, x):
    seen = set()
    todo = [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if y in seen:
            continue
        seen.add(y)
        todo.extend(z for z in y.a if isinstance(z, T))
    return False


def _mentions(t, uid):
    return uid in t.fl or 'lv' in t.fl and _has_lv(t, uid)


def _has_lv(t, uid):
    seen = set()
    todo = [t]
    while todo:
        y = todo.pop()
        if y.op == 'lv' and y.a[0] == uid:
            return True
        if y in seen:
            continue
        seen.add(y)
        todo.extend(z for z in y.a if isinstance(z, T) and 'lv' in z.fl)
    return False


def _uses(it, k, l, S1, ev0):
    """Is the previous value l used anywhere in the iteration?"""
    for kk, v in S1.items():
        if kk != k and 'lv' in v.fl and _contains(v, l):
            return True
    for e in it.events[ev0:]:
        if isinstance(e.term, T) and 'lv' in e.term.fl and \
                _contains(e.term, l) or 'lv' in e.guard.fl and \
                _contains(e.guard, l):
            return True
    return False


import builtins as _b
BUILTINS = frozenset(dir(_b)) | {'__name__', '__file__', 'stored',
                                    'abandon'}

ALIAS = {
    'numpy.bool_': 'bool', 'numpy.bool': 'bool', 'numpy.float64': 'float',
    'numpy.float_': 'float', 'numpy.newaxis': 'numpy.newaxis',
    'numpy.amin': 'numpy.min', 'numpy.amax': 'numpy.max',
    'numpy.in1d': 'numpy.isin', 'numpy.row_stack': 'numpy.vstack',
    'numpy.absolute': 'numpy.abs', 'builtins.object': 'object',
    'tables.openFile': 'tables.open_file', 'numpy.true_divide':
    'numpy.divide', 'os.path': 'os.path', 'numpy.int_': 'int',
    'numpy.int64': 'int', 'numpy.intp': 'int',
    'itertools.izip': 'itertools.izip',
}


GLOB_CONST = {'os.curdir': '.', 'os.sep': '/', 'os.path.sep': '/',
              'os.linesep': '\n', 'os.extsep': '.', 'os.pardir': '..'}


def glob_term(n):
    n = canon_glob(n)
    if n in GLOB_CONST:
        return const(GLOB_CONST[n])
    return mk('glob', n)


def canon_glob(n):
    if n.startswith('builtins.'):
        n = n[9:]
    return ALIAS.get(n, n)
