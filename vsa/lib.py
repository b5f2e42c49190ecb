"""
What the analysis knows about Python's builtins, numpy, PyTables, ConfigParser
and the accessors of the package's particle sets.

Everything not modelled here becomes an uninterpreted call term, equal only to
the same call on the same values.
"""
import ast
import re

from .terms import *
from .seq import *
from .interp import toset, dminus, ddel, canon_glob, UNDEF, compare, binop


def call(name, *args, **kw):
    return mk('call', mk('glob', name), mk('tuple', *args),
              mk('kw', *[mk('kwp', k, kw[k]) for k in sorted(kw)]))


def iscall(t, *names):
    return t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in names


def kwget(t, name):
    for p in t.a[2].a:
        if p.a[0] == name:
            return p.a[1]
    return None


# positional names and default values of library functions
SIG = {
    'numpy.sum': ('a axis dtype out keepdims', {'axis': None,
                                                'keepdims': False}),
    'numpy.prod': ('a axis dtype out keepdims', {'axis': None,
                                                 'keepdims': False}),
    'numpy.mean': ('a axis dtype out keepdims', {'axis': None,
                                                 'keepdims': False}),
    'numpy.std': ('a axis dtype out ddof keepdims', {'axis': None}),
    'numpy.min': ('a axis out keepdims', {'axis': None, 'keepdims': False}),
    'numpy.max': ('a axis out keepdims', {'axis': None, 'keepdims': False}),
    'numpy.any': ('a axis out keepdims', {'axis': None, 'keepdims': False}),
    'numpy.all': ('a axis out keepdims', {'axis': None, 'keepdims': False}),
    'numpy.cumsum': ('a axis dtype', {'axis': None}),
    'numpy.argmin': ('a axis', {'axis': None}),
    'numpy.argmax': ('a axis', {'axis': None}),
    'numpy.argsort': ('a axis kind', {'axis': -1}),
    'numpy.sort': ('a axis kind', {'axis': -1}),
    'numpy.repeat': ('a repeats axis', {'axis': None}),
    'numpy.diff': ('a n axis', {'n': 1, 'axis': -1}),
    'numpy.roll': ('a shift axis', {'axis': None}),
    'numpy.take': ('a indices axis', {'axis': None}),
    'numpy.take_along_axis': ('arr indices axis', {'axis': -1}),
    'numpy.concatenate': ('arrays axis', {'axis': 0}),
    'numpy.stack': ('arrays axis', {'axis': 0}),
    'numpy.vstack': ('tup', {}),
    'numpy.hstack': ('tup', {}),
    'numpy.dstack': ('tup', {}),
    'numpy.column_stack': ('tup', {}),
    'numpy.linalg.norm': ('x ord axis keepdims', {
        'ord': None, 'axis': None, 'keepdims': False}),
    'numpy.zeros': ('shape dtype order', {'dtype': 'float'}),
    'numpy.ones': ('shape dtype order', {'dtype': 'float'}),
    'numpy.empty': ('shape dtype order', {'dtype': 'float'}),
    'numpy.full': ('shape fill_value dtype', {'dtype': None}),
    'numpy.zeros_like': ('a dtype', {'dtype': None}),
    'numpy.ones_like': ('a dtype', {'dtype': None}),
    'numpy.empty_like': ('a dtype', {'dtype': None}),
    'numpy.full_like': ('a fill_value dtype', {'dtype': None}),
    'numpy.convolve': ('a v mode', {'mode': 'full'}),
    'numpy.digitize': ('x bins right', {'right': False}),
    'numpy.searchsorted': ('a v side sorter', {'side': 'left'}),
    'numpy.isin': ('element test_elements assume_unique invert',
                   {'assume_unique': False, 'invert': False}),
    'numpy.histogram': ('a bins range density weights', {
        'range': None, 'density': None, 'weights': None}),
    'numpy.logspace': ('start stop num endpoint base', {
        'num': 50, 'endpoint': True, 'base': 10}),
    'numpy.linspace': ('start stop num endpoint', {
        'num': 50, 'endpoint': True}),
    'numpy.unique': ('ar return_index return_inverse return_counts axis', {
        'return_index': False, 'return_inverse': False,
        'return_counts': False, 'axis': None}),
    'numpy.lexsort': ('keys axis', {'axis': -1}),
    'numpy.expand_dims': ('a axis', {}),
    'numpy.swapaxes': ('a axis1 axis2', {}),
    'numpy.loadtxt': ('fname dtype comments delimiter converters skiprows '
                      'usecols unpack ndmin', {
                          'skiprows': 0, 'unpack': False, 'ndmin': 0,
                          'usecols': None, 'converters': None,
                          'delimiter': None, 'dtype': 'float'}),
    'numpy.load': ('file mmap_mode allow_pickle', {'mmap_mode': None}),
    'numpy.save': ('file arr', {}),
    'numpy.broadcast_to': ('array shape', {}),
    'numpy.tile': ('A reps', {}),
    'numpy.linalg.solve': ('a b', {}),
    'numpy.linalg.pinv': ('a rcond', {}),
    'numpy.dot': ('a b', {}),
    'numpy.split': ('ary indices_or_sections axis', {'axis': 0}),
    'numpy.clip': ('a a_min a_max', {}),
    'numpy.maximum': ('x1 x2', {}),
    'numpy.minimum': ('x1 x2', {}),
    'tables.open_file': ('filename mode title', {'mode': 'r', 'title': ''}),
    'scipy.spatial.cKDTree': ('data leafsize', {}),
    'scipy.interpolate.splprep': ('x w u ub ue k task s', {
        'w': None, 'u': None, 'k': 3, 's': None}),
    'scipy.interpolate.splev': ('x tck der ext', {'der': 0, 'ext': 0}),
    'scipy.io.loadmat': ('file_name mdict', {'mdict': None}),
    'warnings.warn': ('message category stacklevel', {}),
    'open': ('file mode', {'mode': 'r'}),
    're.compile': ('pattern flags', {'flags': 0}),
    're.match': ('pattern string flags', {'flags': 0}),
    're.search': ('pattern string flags', {'flags': 0}),
    're.fullmatch': ('pattern string flags', {'flags': 0}),
    're.split': ('pattern string maxsplit flags', {'maxsplit': 0,
                                                   'flags': 0}),
    'os.makedirs': ('name mode exist_ok', {'exist_ok': False}),
}
# the same for methods of library objects (receiver first)
MSIG = {
    'read_where': ('condition condvars field start stop step', {
        'condvars': None, 'field': None, 'start': None, 'stop': None}),
    'create_table': ('where name description title', {'title': ''}),
    'get_node': ('where name', {'name': None}),
    'col': ('name', {}),
    'query': ('x k eps p distance_upper_bound', {'eps': 0, 'p': 2}),
    'create_index': ('', {}),
    'getfloat': ('section option', {}), 'getint': ('section option', {}),
    'getboolean': ('section option', {}), 'get': ('section option', {}),
    'set': ('section option value', {}),
    'has_option': ('section option', {}),
    'remove_option': ('section option', {}),
    'add_argument': ('*', {}),
}

ARRAY_METHODS = {
    'sum': 'numpy.sum', 'min': 'numpy.min', 'max': 'numpy.max',
    'any': 'numpy.any', 'all': 'numpy.all', 'mean': 'numpy.mean',
    'std': 'numpy.std', 'prod': 'numpy.prod', 'cumsum': 'numpy.cumsum',
    'argmin': 'numpy.argmin', 'argmax': 'numpy.argmax',
    'argsort': 'numpy.argsort', 'repeat': 'numpy.repeat',
    'squeeze': 'numpy.squeeze', 'transpose': 'numpy.transpose',
    'nonzero': 'numpy.nonzero', 'take': 'numpy.take', 'dot': 'numpy.dot',
    'ravel': 'numpy.ravel', 'flatten': 'numpy.ravel', 'clip': 'numpy.clip',
    'swapaxes': 'numpy.swapaxes', 'round': 'numpy.round',
    'reshape': 'numpy.reshape', 'searchsorted': 'numpy.searchsorted',
}

EFFECTS = frozenset([
    'warnings.warn', 'os.makedirs', 'os.mkdir', 'numpy.save', 'numpy.savez',
    'numpy.savez_compressed', 'numpy.savetxt', 'os.remove', 'os.unlink',
    'shutil.rmtree', 'print', 'os.rename', 'tables.open_file', 'open',
    'matplotlib.pyplot.subplot', 'matplotlib.pyplot.plot',
    'matplotlib.pyplot.figure', 'matplotlib.pyplot.ylabel',
    'matplotlib.pyplot.xlabel', 'matplotlib.pyplot.ylim',
    'matplotlib.pyplot.yticks', 'matplotlib.pyplot.quiver',
    'matplotlib.pyplot.grid',
    'matplotlib.pyplot.loglog', 'matplotlib.pyplot.semilogx',
    'matplotlib.pyplot.semilogy',
])
# methods of the built-in containers that change them
CHANGING = frozenset([
    'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
    'clear', 'update', 'setdefault', 'popitem', 'fill', 'resize',
    'partition', 'itemset', 'put', 'add', 'discard',
])
# without arguments these only tell the current value
QUERIES = frozenset([
    'matplotlib.pyplot.yticks', 'matplotlib.pyplot.ylim',
    'matplotlib.pyplot.xticks', 'matplotlib.pyplot.xlim',
])
EFFECT_METHODS = frozenset([
    'append', 'create_index', 'flush', 'close', 'create_table', 'write',
    'remove', 'remove_rows', 'modify_column', 'connect', 'add_argument',
    'parse_args', 'create_array', 'remove_node', 'create_csindex',
    'set_visible', 'set_major_formatter', 'modify_rows', 'create_group',
])

ELEMENTWISE = {
    'numpy.add': 'Add', 'numpy.subtract': 'Sub', 'numpy.multiply': 'Mult',
    'numpy.divide': 'Div', 'numpy.power': 'Pow', 'numpy.mod': 'Mod',
    'numpy.floor_divide': 'FloorDiv', 'numpy.matmul': 'MatMult',
    'operator.add': 'Add', 'operator.sub': 'Sub', 'operator.mul': 'Mult',
    'numpy.float_power': 'Pow',
}
CMPFN = {
    'numpy.equal': 'Eq', 'numpy.not_equal': 'NotEq', 'numpy.less': 'Lt',
    'numpy.less_equal': 'LtE', 'numpy.greater': 'Gt',
    'numpy.greater_equal': 'GtE', 'operator.eq': 'Eq', 'operator.lt': 'Lt',
    'operator.le': 'LtE', 'operator.gt': 'Gt', 'operator.ge': 'GtE',
    'operator.ne': 'NotEq',
}


CHANGE = frozenset([
    'numpy.put', 'numpy.put_along_axis', 'numpy.copyto', 'numpy.putmask',
    'numpy.place', 'numpy.fill_diagonal', 'numpy.random.shuffle',
    'numpy.add.at', 'numpy.subtract.at', 'numpy.multiply.at',
    'numpy.maximum.at', 'numpy.minimum.at', 'random.shuffle',
    'numpy.nan_to_num_', 'bisect.insort', 'heapq.heappush', 'heapq.heapify'])


class Lib(object):
    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------ attributes

    def getattr(self, b, c, name):
        it = self.it
        if c.op == 'missing':
            return self.missing(c)
        if c.op == 'ite' and b.op != 'ref':
            return it.ite(c.a[0], it.getattr(c.a[1], name),
                          it.getattr(c.a[2], name))
        # something stored earlier
        if any(k[0] == 'x' and k[2] == name for k in it.S):
            db = it.deref(b)
            v = it.S.get(('x', db, name))
            if v is not None:
                return v
        if c.op == 'new' or c.op == 'param' and c.a[1] in ('traj', 'snap') \
                or self.isset(c):
            r = self.set_attr(b, c, name)
            if r is not None:
                return r
        if c.op == 'struct':
            v = dget(c.a[0], const(name))
            if v is not None:
                return v
        if c.op == 'param' and c.a[1] in ('frame',):
            return mk('param', c.a[0] + '.' + name,
                      'snap' if name in ('tracers', 'particles') else None)
        if name == 'shape':
            return shape(it.deref(c))
        if name == 'T':
            return self.transpose(it.deref(c))
        if name == 'ndim':
            x = it.deref(c)
            while x.op in ('upd', 'like') and kind(x) not in (
                    'arr1', 'arr2', 'arr3'):
                x = x.a[0]
            k = kind(c) if kind(c) in ('arr1', 'arr2', 'arr3') else kind(x)
            if k in ('arr1', 'arr2', 'arr3'):
                return const(int(k[-1]))
            return mk('ndim', it.deref(c))
        if name == 'size' and c.op != 'glob':
            return call('numpy.size', it.deref(c))
        if c.op == 'attr' and c.a[1] == 'dtype' and name in (
                'fields', 'names'):
            return strfields(it.deref(c.a[0]))
        if name in ('fields', 'names') and iscall(c, 'numpy.dtype'):
            l = c.a[1].a[0]
            if l.op == 'list' and all(x.op == 'tuple' for x in l.a):
                return mk('list' if name == 'fields' else 'tuple',
                          *[x.a[0] for x in l.a])
            return mk('fields', c)
        if name == 'colnames':
            return mk('fields', it.deref(c))
        if name == '__name__':
            return mk('attr', it.deref(c), name)
        if name == 'type' and c.op == 'attr' and c.a[1] == 'dtype':
            return mk('attr', it.deref(c), name)
        return mk('attr', b, name)

    def isset(self, c):
        return kind(c) in ('traj', 'snap')

    def missing(self, c):
        it = self.it
        if it.dead:
            return UNDEF
        it.event('raise', 'NameError', mk('missing', c.a[0]))
        it.dead = 'raise'
        return UNDEF

    MANDATORY = ('pos', 'velocity', 'time', 'trajid')

    def set_attr(self, b, c, name):
        if name in ('has_property', 'schema', 'ext_schema', 'as_dict',
                    'create_property', 'smoothed', '__len__', '__getitem__'):
            return mk('accessor', b, name)
        if name.startswith('set_'):
            return mk('accessor', b, name)
        if name == '__dict__':
            return mk('setdict', b)
        if name == '_check_attr':
            return keys(self.as_dict(c))
        if name.startswith('_') and not name.startswith('__'):
            return self.prop(c, name[1:] if name not in ('_id', '_t') else
                             {'_id': 'trajid', '_t': 'time'}[name])
        if name.startswith('__'):
            return None
        if c.op == 'new':
            v = get_prop(c, name)
            if v is None and c.a[1].op == 'dict':
                return mk('missing', name)
        return mk('accessor', b, name)

    def prop(self, c, name):
        if c.op == 'new':
            v = get_prop(c, name)
            if v is not None:
                return v
        return mk('prop', c, name)

    def as_dict(self, c):
        if c.op == 'new':
            drop = 'trajid' if c.a[0] == 'Trajectory' else 'time'
            return dminus(c.a[1], [const(drop)])
        return mk('props', c)

    # ------------------------------------------------------------ calls

    def args(self, args, kwargs):
        it = self.it
        a = []
        for x in args:
            a.append(it.deref(x))
        k = []
        for n, v in kwargs:
            v = it.deref(v)
            if n is None:
                if v.op == 'dict' and all(p.a[0].op == 'const' for p in v.a):
                    for p in v.a:
                        k.append((p.a[0].a[1], p.a[1]))
                else:
                    k.append(('**', v))
            else:
                k.append((n, v))
        return a, k

    def build(self, name, a, k):
        """Canonical call of library function ``name``."""
        sig = SIG.get(name)
        kw = dict(k)
        if sig is not None and not any(x.op == 'starred' for x in a):
            names, defaults = sig[0].split(), sig[1]
            # out-of-place arguments
            if len(a) <= len(names):
                for n, v in zip(names, a):
                    kw.setdefault(n, v)
                a = []
                if names and names[0] in kw:
                    a = [kw.pop(names[0])]
                if len(names) > 1 and names[1] in kw and \
                        names[1] not in defaults and a:
                    a.append(kw.pop(names[1]))
                for n, d in defaults.items():
                    if n in kw:
                        v = kw[n]
                        if d == 'float' and n == 'dtype':
                            if v.op == 'glob' and v.a[0] == 'float' or \
                                    v is NONE:
                                del kw[n]
                        elif v is const(d) or d is None and v is NONE:
                            del kw[n]
        return mk('call', mk('glob', name), mk('tuple', *a),
                  mk('kw', *[mk('kwp', n, kw[n]) for n in sorted(kw)]))

    def call(self, f, args, kwargs, node):
        it = self.it
        if f.op == 'missing':
            return self.missing(f)
        if f.op == 'glob':
            name = f.a[0]
            if name in CHANGE and args:
                return self.changed(name, args, kwargs, node)
            out = [v for n, v in kwargs if n == 'out']
            if out and out[0] is not NONE:
                r = self.call(f, args, [p for p in kwargs if p[0] != 'out'],
                              node)
                it.mutated(out[0], name)
                self.write_arg(out[0], it.deref(r), node, 'out')
                return r
            h = getattr(self, 'g_' + name.replace('.', '_'), None)
            if h is not None:
                r = h(args, kwargs, node)
                if r is not None:
                    return r
            return self.glob(name, args, kwargs)
        if f.op == 'attr':
            return self.method(f.a[0], f.a[1], args, kwargs, node)
        if f.op == 'accessor':
            return self.accessor(f, args, kwargs, node)
        if f.op == 'setfn':
            return self.accessor(f, args, kwargs, node)
        if f.op == 'undef':
            return UNDEF
        if f.op in ('const', 'list', 'tuple', 'dict', 'new', 'str'):
            it.event('raise', 'TypeError', mk('notcallable', it.deref(f)))
            it.dead = 'raise'
            return UNDEF
        a, k = self.args(args, kwargs)
        r = mk('call', it.deref(f), mk('tuple', *a), mk('kw', *[
            mk('kwp', n, v) for n, v in sorted(k, key=lambda p: p[0])]))
        if f.op == 'param':
            it.event('call', f.a[0], r)
        return r

    def glob(self, name, args, kwargs):
        it = self.it
        a, k = self.args(args, kwargs)
        if name in ELEMENTWISE and len(a) == 2 and not k:
            return lift(lambda x, y: binop(ELEMENTWISE[name], x, y), a)
        if name in CMPFN and len(a) == 2 and not k:
            return lift(lambda x, y: compare(CMPFN[name], x, y), a)
        if name == 'os.path.isdir':
            name = 'os.path.exists'
        if name == 'os.makedirs' and (('exist_ok', TRUE) in k or
                                      len(a) > 2 and a[2] is TRUE):
            k = [p for p in k if p[0] != 'exist_ok']
            a = a[:2]
            it.branch(truth(call('os.path.exists', a[0])), lambda: None,
                      lambda: self.glob(name, a, k) and None)
            return NONE
        r = self.lifted(name, a, k)
        if name in EFFECTS and (a or k or name not in QUERIES):
            it.event('call', name, r)
        return r

    def lifted(self, name, a, k):
        m = len(a)
        names = [n for n, _ in k]
        if any(x.op == 'ite' for x in a) or any(v.op == 'ite' for _, v in k):
            return lift(lambda *v: self.canon(name, list(v[:m]), list(zip(
                names, v[m:]))), a + [v for _, v in k], 16)
        return self.canon(name, a, k)

    def canon(self, name, a, k):
        """Simplifications of library calls."""
        c = self.build(name, a, k)
        args, kw = c.a[1].a, dict((p.a[0], p.a[1]) for p in c.a[2].a)
        x = args[0] if args else None
        if name in ('numpy.array', 'numpy.asarray', 'numpy.asanyarray',
                    'numpy.ascontiguousarray') and x is not None:
            if not set(kw) - {'copy', 'order'}:
                return arr(x)
        elif name == 'numpy.logical_not' or name == 'numpy.invert':
            return not_(x)
        elif name == 'numpy.negative':
            return neg(x)
        elif name in ('numpy.logical_and', 'numpy.bitwise_and') and \
                len(args) == 2:
            return and_(*args)
        elif name in ('numpy.logical_or', 'numpy.bitwise_or') and \
                len(args) == 2:
            return or_(*args)
        elif name == 'numpy.square':
            return power(x, const(2))
        elif name == 'numpy.sqrt' or name == 'math.sqrt':
            return power(x, mk('rat', 1, 2))
        elif name in ('numpy.flatnonzero',):
            return sub(call('numpy.nonzero', x), ZERO)
        elif name == 'numpy.argwhere' and False:
            pass
        elif name == 'numpy.where' and len(args) == 1:
            return call('numpy.nonzero', x)
        elif name == 'numpy.where' and len(args) == 3:
            if x.op == 'not' or x.op in ('ne', 'le'):
                n = not_(x)
                if n.op in ('lt', 'eq') or x.op == 'not':
                    return call('numpy.where', n, args[2], args[1])
        elif name == 'numpy.isin' and len(args) + len(kw) == 2:
            el = x
            s = args[1] if len(args) > 1 else kw['test_elements']
            if el.op not in ('ite',):
                ev = mk('ix', 'isin')
                return self.isin(el, s)
        elif name == 'numpy.linalg.norm' and 'ord' not in kw:
            kk = dict(kw)
            return power(call('numpy.sum', power(x, const(2)), **kk),
                         mk('rat', 1, 2))
        elif name in ('numpy.atleast_1d', 'numpy.atleast_2d') and \
                x is not None:
            k_ = kind(x)
            nd = int(name[-2])
            if k_ in ('arr1', 'arr2', 'arr3') and int(k_[-1]) >= nd:
                return x
            if iscall(x, name):
                return x
            if iscall(x, 'numpy.loadtxt') and not any(
                    k.a[0] in ('ndmin', 'unpack') for k in x.a[2].a):
                return call('numpy.loadtxt', *x.a[1].a, **dict(
                    [(k.a[0], k.a[1]) for k in x.a[2].a],
                    ndmin=const(nd)))
        elif name == 'numpy.transpose' and len(args) == 1 and not kw:
            return self.transpose(x)
        elif name == 'numpy.copy':
            return x
        elif name == 'abs':
            return call('numpy.abs', x)
        elif name == 'numpy.abs' and x is not None and num(x) is not None:
            return x if num(x) >= 0 else mul(const(-1), x)
        elif name == 'numpy.full_like' and len(args) == 2 or \
                name == 'numpy.full_like' and 'fill_value' in kw:
            fv = args[1] if len(args) == 2 else kw['fill_value']
            if fv is ZERO and 'dtype' not in kw:
                return call('numpy.zeros_like', x)
        elif name == 'numpy.full' and len(args) == 2 and not kw:
            if args[1].op == 'const' and args[1].a[0] == 'float' and \
                    num(args[1]) == 0:
                return call('numpy.zeros', x)
        elif name == 'numpy.expand_dims' and len(args) == 2:
            if args[1] is const(-1):
                return sub(x, mk('tuple', ELL, NONE))
            if args[1] is ZERO:
                return sub(x, NONE)
        elif name in ('numpy.any', 'numpy.all') and len(args) == 1 and (
                x.op in ('add', 'mul') or iscall(x, 'numpy.diff')):
            return self.canon(name, [ne(x, ZERO)], k)
        elif name == 'numpy.fabs':
            return call('numpy.abs', x)
        elif name == 'numpy.ravel' and kind(x) == 'arr1':
            return x
        elif name in ('min', 'max') and len(args) == 2 and not kw:
            na, nb = num(args[0]), num(args[1])
            if na is not None and nb is not None:
                return args[0] if (na < nb) == (name == 'min') else args[1]
            return call(name, *sorted(args, key=lambda t: t.d))
        elif name in ('numpy.maximum', 'numpy.minimum') and len(args) == 2:
            return call(name, *sorted(args, key=lambda t: t.d))
        elif name == 'int' and len(args) == 1:
            if x.op == 'cfgget':
                return mk('cfgconv', 'getint', x)
            return self.toint(x)
        elif name == 'float' and len(args) == 1:
            if x.op == 'cfgget':
                return mk('cfgconv', 'getfloat', x)
            if kind(x) == 'float':
                return x
            if x.op == 'const' and x.a[0] in ('str', 'int'):
                try:
                    return const(float(x.a[1]))
                except ValueError:
                    pass
        elif name == 'numpy.nonzero' and x is not None:
            x = unarr(x)
            return call(name, x)
        elif name == 'os.path.join' and len(args) == 2 and \
                args[0] is const('') and False:
            return args[1]
        elif name == 'sorted' and x is not None and x.op == 'keys' and False:
            pass
        elif name in ('numpy.sort', 'sorted', 'numpy.unique') and \
                len(args) == 1 and not kw and x.op == 'call' and \
                iscall(x, 'numpy.sort', 'sorted', 'numpy.unique') and \
                not x.a[2].a:
            return x
        return c

    def toint(self, x):
        if kind(x) in ('int',):
            return x
        if x.op == 'const' and x.a[0] == 'str':
            try:
                return const(int(x.a[1]))
            except ValueError:
                pass
        if x.op == 'const' and x.a[0] == 'float':
            try:
                return const(int(float(x.a[1])))
            except ValueError:
                pass
        if x.op == 'const' and x.a[0] == 'bool':
            return const(int(x.a[1]))
        return call('int', x)

    def isin(self, el, s):
        ix = mk('ix', 'isin')
        h, (v,) = close('isin', [inn(sub(el, ix), s)])
        return arr(mkmap(h, length(el), v, TRUE))

    def transpose(self, x):
        if iscall(x, 'numpy.transpose') and len(x.a[1].a) == 1:
            return x.a[1].a[0]
        return call('numpy.transpose', x)

    def r_(self, name, items):
        """np.r_[...] and np.c_[...]"""
        out = []
        for x in items:
            if x.op == 'slice':
                lo = ZERO if x.a[0] is NONE else x.a[0]
                out.append(call('numpy.arange', lo, x.a[1])
                           if x.a[2] is NONE else mk('sl', *x.a))
            else:
                out.append(x)
        if name == 'numpy.s_':
            return mk('tuple', *items) if len(items) > 1 else items[0]
        if name == 'numpy.r_' and len(out) == 1 and (
                kind(out[0]) in ('list',) or kind(out[0]) in ARRAY_KINDS):
            return arr(out[0])
        if name == 'numpy.r_' and all(kind(x) in ('int', 'float') or
                                      x.op in ('const',) for x in out):
            return arr(mk('list', *out))
        return mk('call', mk('glob', name), mk('tuple', *out), mk('kw'))

    # ------------------------------------------------------------ accessors

    def accessor(self, f, args, kwargs, node):
        it = self.it
        b, name = f.a
        c = it.content(b)
        c = it.deref(c)
        if name == 'has_property':
            n = it.deref(args[0])
            if c.op == 'new':
                return inn(n, self.as_dict(c))
            return mk('hasprop', c, n)
        if name == 'schema':
            if c.op == 'new' and c.a[1].op == 'dict':
                return it.alloc(mkdict([
                    (p.a[0], sub(shape(p.a[1]), mk('slice', ONE, NONE, NONE)))
                    for p in self.as_dict(c).a]))
            return it.alloc(mk('schema', c))
        if name == 'ext_schema':
            return it.alloc(mk('extschema', c))
        if name == 'as_dict':
            return it.alloc(self.as_dict(c))
        if name == '__len__':
            return length(c)
        if name == 'create_property':
            n, v = it.deref(args[0]), it.deref(args[1])
            it.mutated(b, 'create_property', recv(node))
            if c.op == 'new':
                new = mk('new', c.a[0], dset(c.a[1], n, v))
            else:
                new = mk('withprop', c, n, v)
            if node is not None and isinstance(node.func, ast.Attribute):
                it.store_back(node.func.value, b, new)
            return NONE
        if name.startswith('set_') or name == '?set':
            pn = f.a[2] if f.op == 'setfn' else const(name[4:])
            v = it.deref(args[0])
            sel = it.deref(args[1]) if len(args) > 1 else NONE
            for n_, v_ in kwargs:
                if n_ == 'selector':
                    sel = it.deref(v_)
            it.mutated(b, 'set', recv(node))
            if c.op == 'new' and pn.op == 'const':
                old = self.prop(c, pn.a[1])
                nv = v if sel is NONE else upd(old, sel, v)
                new = mk('new', c.a[0], dset(c.a[1], pn, nv))
            else:
                new = mk('withset', c, pn, v, sel)
            if node is not None and isinstance(node.func, ast.Attribute):
                it.store_back(node.func.value, b, new)
            return NONE
        if name == 'smoothed':
            a, k = self.args(args, kwargs)
            return mk('call', mk('meth', 'smoothed'), mk('tuple', c, *a),
                      mk('kw', *[mk('kwp', n, v) for n, v in k]))
        # property getter
        if f.op == 'accessor':
            v = self.prop(c, name)
        sel = None
        if args:
            sel = it.deref(args[0])
        for n_, v_ in kwargs:
            if n_ == 'selector':
                sel = it.deref(v_)
        if sel is None or sel is NONE:
            return v
        return sub(v, sel)

    # ------------------------------------------------------------ methods

    def method(self, b, name, args, kwargs, node):
        it = self.it
        c = it.content(b)
        if c.op == 'undef':
            return UNDEF
        if c.op == 'ite' and (kind(c) is None) and (
                it_hasref(c)):
            res = []
            it.branch(c.a[0],
                      lambda: res.append(self.method(c.a[1], name, args,
                                                     kwargs, node)),
                      lambda: res.append(self.method(c.a[2], name, args,
                                                     kwargs, node)))
            if len(res) == 2:
                return it.ite(c.a[0], res[0], res[1])
            return res[0] if res else UNDEF
        if c.op == 'cfgsec' and name in ('get', 'getint', 'getfloat',
                                         'getboolean'):
            kw = list(kwargs)
            if len(args) > 1:
                kw.append(('fallback', args[1]))
            return self.method(c.a[0], name, [c.a[1], args[0]], kw, node)
        if c.op == 'setdict':
            return self.dict_method(b, mk('props', it.deref(c.a[0])), name,
                                    args, kwargs, node)
        k = kind(c)
        if c.op in ('cfg',) or c.op in ('dupd', 'dminus', 'ite') and \
                self.iscfg(c):
            r = self.cfg_method(b, c, name, args, kwargs, node)
            if r is not None:
                return r
        if c.op == 'param' and c.a[1] == 'cfg':
            r = self.cfg_method(b, c, name, args, kwargs, node)
            if r is not None:
                return r
        if k == 'dict' or c.op == 'lv' and name in (
                'setdefault', 'items', 'update') or c.op in ('objdict',):
            r = self.dict_method(b, c, name, args, kwargs, node)
            if r is not None:
                return r
        if k == 'str':
            r = self.str_method(it.deref(c), name, args, kwargs)
            if r is not None:
                return r
        if (b.op == 'ref' or k == 'list') and c.op != 'arr':
            r = self.list_method(b, c, name, args, kwargs, node)
            if r is not None:
                return r
        if name in ('iter_rows',):
            pass
        if k == 'set' and name in ('add', 'update', 'discard'):
            dc = it.deref(c)
            new = mk('setadd', dc, it.deref(args[0]))
            self.write(b, new, node)
            return NONE
        if k == 'set' and name in ('intersection', 'union', 'difference'):
            o = toset(it.deref(args[0]))
            if name == 'intersection':
                return and_(it.deref(c), o)
            if name == 'union':
                return or_(it.deref(c), o)
            return minus(it.deref(c), o)
        # arrays
        if name in ('sort', 'fill', 'resize', 'partition', 'itemset', 'put'):
            dc = it.deref(c)
            a, kk = self.args(args, kwargs)
            if name == 'sort':
                new = self.lifted('numpy.sort', [dc] + a, kk)
            elif name == 'fill':
                new = upd(dc, FULL, a[0])
            else:
                new = mk('call', mk('meth', name), mk('tuple', dc, *a),
                         mk('kw'))
            it.mutated(b, name, recv(node))
            self.write(b, new, node)
            return NONE
        dc = it.deref(c)
        if name == 'astype':
            t = it.deref(args[0]) if args else it.deref(kwargs[0][1])
            return self.astype(dc, t)
        if name == 'copy' and not args:
            return it.alloc(dc) if dc.op != 'call' or not iscall(
                dc, 'ConfigParser') else dc
        if name == 'tolist':
            return dc
        if name == 'item' and not args:
            return dc
        if name == 'reshape':
            a, kk = self.args(args, kwargs)
            s = a[0] if len(a) == 1 else mk('tuple', *a)
            return call('numpy.reshape', dc, s)
        if name in ARRAY_METHODS:
            a, kk = self.args(args, kwargs)
            out = [v for n, v in kwargs if n == 'out']
            if out and out[0] is not NONE:
                r = self.method(b, name, args, [
                    p for p in kwargs if p[0] != 'out'], node)
                it.mutated(out[0], name)
                self.write_arg(out[0], it.deref(r), node, 'out')
                return r
            return self.lifted(ARRAY_METHODS[name], [dc] + a, kk)
        if name == 'read_where':
            return self.read_where(dc, args, kwargs)
        if name == 'read' and not args and not kwargs and False:
            return dc
        a, kk = self.args(args, kwargs)
        if dc.op == 'param' and dc.a[1] == 'obj':
            # an object with state: what was set in it before counts
            st = it.S.get(('st', dc), dc)
            r = mk('call', mk('meth', name), mk('tuple', st, *a),
                   mk('kw', *[mk('kwp', n, v) for n, v in sorted(
                       kk, key=lambda p: p[0])]))
            if name.startswith('set'):
                it.S[('st', dc)] = r
                it.event('call', name, r)
                return NONE
            return r
        sig = MSIG.get(name)
        kw = dict(kk)
        if name == 'add_argument':
            kw.pop('help', None)
            kw.pop('metavar', None)
        if sig is not None and sig[0] != '*' and \
                not any(x.op == 'starred' for x in a):
            names, defaults = sig[0].split(), sig[1]
            if len(a) <= len(names):
                for n, v in zip(names, a):
                    kw.setdefault(n, v)
                a = []
                for n in names:
                    if n in kw and n not in defaults:
                        a.append(kw.pop(n))
                    else:
                        break
                for n, d in defaults.items():
                    if n in kw and kw[n] is const(d):
                        del kw[n]
        r = mk('call', mk('meth', name), mk('tuple', dc, *a),
               mk('kw', *[mk('kwp', n, kw[n]) for n in sorted(kw)]))
        if name == 'col' and len(a) == 1:
            r = sub(dc, a[0])
        if name in EFFECT_METHODS:
            it.event('call', name, r)
        if name in CHANGING and not (b.op == 'call' and
                                     b.a[0].op == 'meth'):
            it.mutated(b, name, recv(node))
            x = dc
            while x.op in ('sub', 'ite', 'dupd', 'setadd'):
                x = x.a[1] if x.op == 'ite' else x.a[0]
            if x.op in ('acc', 'carried', 'lv', 'fold', 'defdict', 'dict',
                        'list') or kind(x) in ('dict', 'list', 'set') or \
                    x.op == 'call' and x.a[0].op == 'glob' and \
                    x.a[0].a[0].startswith('collections.'):
                it.event('untracked', name, r)
        return r

    def astype(self, x, t):
        if t.op == 'glob' and t.a[0] == 'int':
            return self.toint(x)
        return call('astype', x, t)

    def write_elem(self, b, c, new, node):
        """A list that is an element of another container was changed."""
        it = self.it
        n = node.func.value if node is not None and isinstance(
            node.func, ast.Attribute) else None
        if isinstance(n, (ast.Subscript, ast.Attribute)):
            it.store_back(n, b, new)
        elif isinstance(n, ast.Name) and b.op == 'param':
            it.store_back(n, b, new)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == 'setdefault':
            it.setitem(n.func.value, it.ev(n.func.value),
                       it.ev(n.args[0]), new)
        else:
            raise Undecided('change of a shared list')

    def write(self, b, new, node):
        it = self.it
        if b.op == 'ref':
            it.S[('h', b.a[0])] = new
        elif node is not None and isinstance(node.func, ast.Attribute):
            it.store_back(node.func.value, b, new)

    # --- strings

    def str_method(self, s, name, args, kwargs):
        it = self.it
        a, k = self.args(args, kwargs)
        if name == 'join':
            return self.join(s, args[0])
        if s.op == 'ite':
            return lift(lambda x, *r: self._str(x, name, list(r)), [s] + a)
        return self._str(s, name, a, dict(k))

    def _str(self, s, name, a, k={}):
        if s.op == 'const' and all(x.op == 'const' for x in a) and not k and \
                name in ('startswith', 'endswith', 'replace', 'upper',
                         'lower', 'strip', 'rstrip', 'lstrip', 'split',
                         'count', 'find'):
            try:
                r = getattr(s.a[1], name)(*[cval(x) for x in a])
            except Exception:
                r = None
            if isinstance(r, list):
                return mk('list', *[const(x) for x in r])
            if r is not None:
                return const(r)
        if name == 'startswith' and s.op == 'str' and a[0].op == 'const' and \
                a[0].a[0] == 'str' and s.a[0].op == 'const':
            p, q = s.a[0].a[1], a[0].a[1]
            if len(p) >= len(q):
                return const(p.startswith(q))
            if not q.startswith(p):
                return FALSE
        if name == 'format':
            if s.op == 'const':
                r = self.format(s.a[1], a, k)
                if r is not None:
                    return r
        if name in ('startswith', 'endswith') and a and a[0].op == 'tuple':
            return or_(*[self._str(s, name, [x]) for x in a[0].a])
        if name in ('startswith', 'endswith') and len(a) == 1:
            return mk('is' + name, s, a[0])
        if name in ('encode', 'decode'):
            return s
        if name in ('replace', 'strip', 'lower', 'upper', 'rstrip', 'lstrip'):
            return call('str.' + name, s, *a)
        return call('strm.' + name, s, *a)

    def format(self, f, a, k):
        import string
        parts, n = [], 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(f):
                if lit:
                    parts.append(const(lit))
                if fld is None:
                    continue
                if fld == '':
                    v = a[n]
                    n += 1
                elif fld.isdigit():
                    v = a[int(fld)]
                elif fld in k:
                    v = k[fld]
                else:
                    return None
                parts.append(fmtv('r' if conv == 'r' else (spec or 's'), v))
        except (ValueError, IndexError):
            return None
        return strcat(*parts)

    def join(self, sep, seq):
        it = self.it
        c = it.deref(it.content(it.iterlist(seq)))
        return self._join(sep, c)

    def _join(self, sep, c):
        if c.op == 'ite':
            return lift(lambda s, x: self._join(s, x), [sep, c])
        if c.op in ('list', 'tuple'):
            parts = []
            for j, x in enumerate(c.a):
                if j:
                    parts.append(sep)
                parts.append(x)
            return strcat(*parts) if parts else const('')
        return mk('join', sep, c)

    def percent(self, f, v):
        it = self.it
        v = it.deref(v)
        if f.op == 'ite' or v.op == 'ite':
            return lift(self._percent, [f, v])
        return self._percent(f, v)

    def _percent(self, f, v):
        if f.op != 'const':
            if v.op == 'tuple' and len(v.a) == 1:
                v = v.a[0]
            return call('str.percent', f, v)
        vals = list(v.a) if v.op == 'tuple' else [v]
        parts, pos, n = [], 0, 0
        for m in re.finditer(r'%(\(\w+\))?([-#0 +]*)(\d*|\*)(\.\d+)?([a-zA-Z%])',
                             f.a[1]):
            parts.append(const(f.a[1][pos:m.start()]))
            pos = m.end()
            if m.group(5) == '%':
                parts.append(const('%'))
                continue
            if m.group(1):
                key = m.group(1)[1:-1]
                x = dget(v, const(key))
                if x is None:
                    raise Undecided('format by name')
            else:
                if n >= len(vals):
                    if v.op == 'tuple' or n > 0:
                        self.it.event('raise', 'TypeError', mk('badformat', f))
                        return mk('badformat', f, v)
                x = vals[n]
                n += 1
            spec = m.group(2) + m.group(3) + (m.group(4) or '') + m.group(5)
            if spec == 'i':
                spec = 'd'
            parts.append(fmtv(spec, x))
        parts.append(const(f.a[1][pos:]))
        if n < len(vals) and not any('(' in p for p in re.findall(
                r'%\(', f.a[1])):
            self.it.event('raise', 'TypeError', mk('badformat', f))
            return mk('badformat', f, v)
        return strcat(*parts)

    # --- lists

    def list_method(self, b, c, name, args, kwargs, node):
        it = self.it
        if name == 'append':
            if b.op == 'ref' and kind(c) in (None, 'list') and \
                    (kind(c) == 'list' or c.op in ('lv', 'ite', 'upd')):
                it.mutated(b, 'append', recv(node))
                it.append(b, args[0])
                return NONE
            if b.op != 'ref' and kind(c) == 'list' and c.op != 'arr':
                it.mutated(b, 'append', recv(node))
                x = it.deref(args[0])
                self.write_elem(b, c, mk('lcat', c, mk('list', x))
                                if c.op in ('sub', 'lv') else
                                seqcat(c, mk('list', x)), node)
                return NONE
            return None
        if name in ('extend',):
            it.mutated(b, 'extend', recv(node))
            l = it.aslist(args[0])
            if b.op == 'ref':
                if c.op == 'lv':
                    it.S[('h', b.a[0])] = mk('lcat', c, l)
                else:
                    it.S[('h', b.a[0])] = lift(
                        lambda x, y: mk('lcat', x, y) if x.op == 'lv'
                        else seqcat(x, y), [c, it.deref(l)])
            else:
                self.write(b, seqcat(it.deref(c), it.deref(l)), node)
            return NONE
        if name == 'insert':
            i, v = it.deref(args[0]), args[1]
            it.mutated(b, 'insert', recv(node))
            if i is ZERO and c.op != 'lv':
                self.write(b, seqcat(mk('list', v), c), node)
            else:
                self.write(b, mk('inserted', it.deref(c), i, it.deref(v)),
                           node)
            return NONE
        if name == 'sort' and kind(c) in ('list', None) and \
                (b.op == 'ref' or kind(c) == 'list'):
            a, k = self.args(args, kwargs)
            it.mutated(b, 'sort', recv(node))
            self.write(b, self.lifted('sorted', [it.deref(c)] + a, k), node)
            return NONE
        if name == 'reverse':
            it.mutated(b, 'reverse', recv(node))
            self.write(b, sub(it.deref(c), mk('slice', NONE, NONE,
                                              const(-1))), node)
            return NONE
        if name == 'pop':
            i = it.deref(args[0]) if args else const(-1)
            dc = it.deref(c)
            it.mutated(b, 'pop', recv(node))
            if c.op == 'list' and i.op == 'const':
                items = list(c.a)
                r = items.pop(int(num(i)))
                self.write(b, mk('list', *items), node)
                return r
            self.write(b, mk('popped', dc, i), node)
            return sub(dc, i)
        if name in ('remove', 'clear'):
            it.mutated(b, name, recv(node))
            a, k = self.args(args, kwargs)
            self.write(b, mk('list') if name == 'clear' else
                       mk('removed', it.deref(c), *a), node)
            return NONE
        if name == 'copy' and kind(c) == 'list':
            return it.alloc(c)
        if name in ('index', 'count') and kind(c) == 'list':
            a, k = self.args(args, kwargs)
            return call('list.' + name, it.deref(c), *a)
        return None

    # --- dictionaries

    def dict_method(self, b, c, name, args, kwargs, node):
        it = self.it
        if c.op == 'objdict':
            o = c.a[0]
            if name == 'get':
                return it.getitem(c, args[0])
            if name in ('items', 'keys', 'values'):
                d = mkdict([(const(k[2]), v) for k, v in it.S.items()
                            if k[0] == 'f' and k[1] == o])
                return mk(name, d) if name != 'keys' else keys(d)
            if name == 'update':
                e = it.content(args[0]) if args else mkdict([])
                for p in (e.a if e.op == 'dict' else ()):
                    it.S[('f', o, it.fieldname(p.a[0]))] = p.a[1]
                return NONE
            return None
        if name == 'items':
            return mk('items', c)
        if name == 'values':
            return mk('values', c)
        if name == 'keys':
            return keys(c) if c.op != 'lv' else mk('keys', c)
        if name == 'copy':
            return it.alloc(c)
        if name == 'get':
            k = it.deref(args[0])
            dflt = args[1] if len(args) > 1 else NONE
            v = dget(c, k)
            i = inn(k, it.deref(c))
            if i is TRUE and v is not None:
                return v
            if i is FALSE:
                return dflt
            return it.ite(i, v if v is not None else sub(it.deref(c), k),
                          dflt)
        if name == 'update':
            it.mutated(b, 'update', recv(node))
            e = mkdict([])
            if args:
                e = it.content(args[0])
                if kind(e) != 'dict':
                    e = self.todict(args[0])
            for n, v in kwargs:
                if n is None:
                    e = dupdate(e, it.content(v))
                else:
                    e = dset(e, const(n), v)
            self.write(b, dupdate(c, e), node)
            return NONE
        if name == 'setdefault':
            k = it.deref(args[0])
            v = args[1] if len(args) > 1 else NONE
            i = inn(k, it.deref(c)) if c.op != 'lv' else mk('in', k, c)
            if i is TRUE:
                return it.getitem(c, k)
            it.mutated(b, 'setdefault', recv(node))
            if i is FALSE:
                self.write(b, dset(c, k, v), node)
                return v
            dv = it.deref(v)
            cur = ite(i, sub(it.deref(c), k), dv)
            self.write(b, mk('dupd', it.deref(c), k, cur), node)
            return cur
        if name == 'pop':
            k = it.deref(args[0])
            v = dget(c, k)
            i = inn(k, it.deref(c))
            it.mutated(b, 'pop', recv(node))
            r = v if v is not None else sub(it.deref(c), k)
            if i is not TRUE and len(args) > 1:
                r = it.ite(i, r, args[1])
            self.write(b, ddel(c, k), node)
            return r
        if name in ('clear',):
            it.mutated(b, name, recv(node))
            self.write(b, mkdict([]), node)
            return NONE
        return None

    # --- configuration files

    def iscfg(self, c):
        while c.op in ('dupd', 'dminus', 'ite'):
            c = c.a[0] if c.op != 'ite' else c.a[1]
        return c.op == 'cfg' or c.op == 'param' and c.a[1] == 'cfg'

    def cfg_method(self, b, c, name, args, kwargs, node):
        it = self.it
        a, k = self.args(args, kwargs)
        kw = dict(k)
        if c.op == 'ite':
            c = it.deref(c)
        if name in ('get', 'getfloat', 'getint', 'getboolean', 'has_option',
                    'set', 'remove_option'):
            names = ['section', 'option', 'value']
            for n in names[len(a):]:
                if n in kw:
                    a.append(kw.pop(n))
            key = mk('tuple', *a[:2])
        if name == 'read':
            f = a[0]
            if f.op == 'cfgpath':
                new = f.a[0]
            else:
                new = mk('cfg', f)
            self.write(b, new, node)
            return a[0]
        if name in ('get', 'getfloat', 'getint', 'getboolean'):
            v = self.cfg_get(c, key)
            if 'fallback' in kw:
                h = self.cfg_has(c, key)
                return ite(h, self.cfg_conv(name, v), kw['fallback'])
            return self.cfg_conv(name, v)
        if name == 'has_option':
            return self.cfg_has(c, key)
        if name == 'has_section':
            return self.cfg_has(it.deref(c), mk('tuple', a[0]))
        if name == 'add_section':
            key = mk('tuple', a[0])
            cc = it.deref(c)
            h = self.cfg_has(cc, key)
            if h is not FALSE:
                if h is TRUE:
                    it.event('raise', 'DuplicateSectionError', key)
                    it.dead = 'raise'
                return NONE
            self.write(b, dset(cc, key, TRUE), node)
            return NONE
        if name == 'set' and self.cfg_has(
                it.deref(c), mk('tuple', a[0])) is FALSE:
            it.event('raise', 'NoSectionError', key)
            it.dead = 'raise'
            return UNDEF
        if name == 'set':
            it.event('call', 'set', mk('cfgset', key, a[2]))
            self.write(b, mk('dupd', it.deref(c), key, a[2])
                       if False else dset(it.deref(c), key, a[2]), node)
            return NONE
        if name == 'remove_option':
            self.write(b, self.cfg_del(it.deref(c), key), node)
            return TRUE
        return None

    def cfg_del(self, c, key):
        if c.op == 'dupd':
            e = eq(c.a[1], key)
            if e is TRUE:
                return self.cfg_del(c.a[0], key)
            if e is FALSE:
                return mk('dupd', self.cfg_del(c.a[0], key), c.a[1], c.a[2])
        if c.op == 'ite':
            return ite(c.a[0], self.cfg_del(c.a[1], key),
                       self.cfg_del(c.a[2], key))
        return mk('dminus', c, key)

    def cfg_get(self, c, key):
        if c.op == 'ite':
            return ite(c.a[0], self.cfg_get(c.a[1], key),
                       self.cfg_get(c.a[2], key))
        if c.op == 'dupd':
            e = eq(c.a[1], key)
            if e is TRUE:
                return mk('cfgval', c.a[2])
            if e is FALSE:
                return self.cfg_get(c.a[0], key)
        if c.op == 'dminus':
            if any(eq(x, key) is TRUE for x in c.a[1:]):
                return mk('nooption', key)
            if all(eq(x, key) is FALSE for x in c.a[1:]):
                return self.cfg_get(c.a[0], key)
        if c.op == 'dict':
            v = dget(c, key)
            return mk('nooption', key) if v is None else mk('cfgval', v)
        if c.op == 'cfg' and c.a[0] is NONE:
            return mk('nooption', key)
        return mk('cfgget', c, key)

    def cfg_has(self, c, key):
        if c.op == 'ite':
            return ite(c.a[0], self.cfg_has(c.a[1], key),
                       self.cfg_has(c.a[2], key))
        if c.op == 'dupd':
            e = eq(c.a[1], key)
            return or_(e, self.cfg_has(c.a[0], key))
        if c.op == 'dminus':
            if any(eq(x, key) is TRUE for x in c.a[1:]):
                return FALSE
            if all(eq(x, key) is FALSE for x in c.a[1:]):
                return self.cfg_has(c.a[0], key)
        if c.op == 'dict':
            return const(dget(c, key) is not None)
        if c.op == 'cfg' and c.a[0] is NONE:
            return FALSE
        if len(key.a) == 1:
            return mk('hassection', c, key.a[0])
        return mk('cfghas', c, key)

    def cfg_conv(self, name, v):
        if v.op == 'ite':
            return ite(v.a[0], self.cfg_conv(name, v.a[1]),
                       self.cfg_conv(name, v.a[2]))
        if v.op == 'cfgval':
            w = self.unescape(v.a[0])
            if name == 'get':
                return w
            if name == 'getboolean':
                if w.op == 'ite':
                    return ite(w.a[0], self.cfg_conv(name, mk(
                        'cfgval', w.a[1])), self.cfg_conv(
                            name, mk('cfgval', w.a[2])))
                if w.op == 'const' and w.a[1] in ('yes', 'on', 'true', '1',
                                                  'True', 'Yes'):
                    return TRUE
                if w.op == 'const' and w.a[1] in ('no', 'off', 'false', '0',
                                                  'False', 'No'):
                    return FALSE
                if w.op == 'fmtv' and w.a[0] == 's' and kind(w.a[1]) == \
                        'bool':
                    return w.a[1]
                return mk('badbool', w)
            if w.op == 'ite':
                return ite(w.a[0], self.cfg_conv(name, mk('cfgval', w.a[1])),
                           self.cfg_conv(name, mk('cfgval', w.a[2])))
            if w.op == 'fmtv' and w.a[0] in ('s', 'r'):
                x = w.a[1]
                if name == 'getfloat' and kind(x) in ('float', 'int'):
                    return x
                if name == 'getint' and kind(x) == 'int':
                    return x
            if w.op == 'const' and w.a[0] == 'str':
                try:
                    return const(float(w.a[1]) if name == 'getfloat'
                                 else int(w.a[1]))
                except ValueError:
                    pass
            return mk('badnum', name, w)
        if name == 'get':
            return v
        return mk('cfgconv', name, v)

    def unescape(self, w):
        if w.op == 'ite':
            return ite(w.a[0], self.unescape(w.a[1]), self.unescape(w.a[2]))
        if iscall(w, 'str.replace') and w.a[1].a[1] is const('%') and \
                w.a[1].a[2] is const('%%'):
            return w.a[1].a[0]
        if w.op == 'const' and '%' not in str(w.a[1]):
            return w
        if w.op == 'fmtv' and kind(w.a[1]) in ('int', 'float', 'bool'):
            return w
        return mk('interpolated', w)

    # --- PyTables queries

    def read_where(self, table, args, kwargs):
        it = self.it
        kw = dict(kwargs)
        names = ['condition', 'condvars', 'field']
        for n, v in zip(names, args):
            kw.setdefault(n, v)
        q = it.deref(kw['condition'])
        field = it.deref(kw['field']) if 'field' in kw else NONE
        cv = it.content(kw['condvars']) if 'condvars' in kw else NONE
        cvars = {}
        if cv.op == 'dict':
            for p in cv.a:
                cvars[p.a[0].a[1]] = it.deref(p.a[1])
        local = dict((k, it.deref(v)) for k, v in it.local_names().items()
                     if v.op not in ('func', 'gen', 'class'))
        extra = dict((k, v) for k, v in kw.items() if k not in names)

        def go(s, tb, fld):
            p = self.predicate(s, local, cvars)
            r = mk('call', mk('meth', 'read_where'), mk('tuple', tb, p),
                   mk('kw', *[mk('kwp', k, it.deref(extra[k]))
                              for k in sorted(extra)]))
            if fld is NONE:
                return r
            return sub(r, fld)
        return lift(go, [q, table, field])

    def predicate(self, s, local, cvars):
        """The row predicate expressed by a query string."""
        parts = s.a if s.op == 'str' else (s,)
        text, holes = '', {}

        def hole(t):
            n = 'HOLE%dX' % len(holes)
            holes[n] = t
            return n
        for p in parts:
            if p.op == 'const' and p.a[0] == 'str':
                text += p.a[1]
            elif p.op == 'fmtv':
                text += hole(p.a[1])
                if not (p.a[0] in ('d', 's', 'r', '.17g') or
                        kind(p.a[1]) == 'int'):
                    # loses precision
                    holes['HOLE%dX' % (len(holes) - 1)] = mk(
                        'rounded', p.a[0], p.a[1])
            elif p.op == 'join':
                text += '(' + hole(self.joined(p, local, cvars)) + ')'
            elif kind(p) == 'str' and p.op == 'param' or p.op == 'sub':
                text += hole(mk('col', p))
            else:
                text += hole(mk('col', p) if kind(p) == 'str' else p)
        try:
            e = ast.parse(text.strip(), mode='eval').body
        except SyntaxError:
            return mk('badquery', s)
        return self.pred(e, holes, local, cvars)

    def joined(self, p, local, cvars):
        sep, seq = p.a
        if sep.op != 'const' or sep.a[1].strip() not in ('&', '|'):
            return mk('badjoin', p)
        f = and_ if sep.a[1].strip() == '&' else or_

        def one(x):
            if x.op == 'ite':
                return ite(x.a[0], one(x.a[1]), one(x.a[2]))
            r = self.predicate(x, local, cvars)
            t = x.a[0] if x.op == 'str' else x
            if t.op == 'const' and not t.a[1].lstrip().startswith('('):
                return mk('unparenthesised', r)
            return r
        items = seq.a if seq.op == 'lcat' else (seq,)
        out = []
        for x in items:
            if x.op in ('list', 'tuple'):
                out.extend(one(y) for y in x.a)
            elif x.op == 'map':
                h, n, v, c = x.a
                pv = one(v)
                out.append(mk('smap', h, n, pv, c) if False else
                           mk('map', h, n, pv, c))
            else:
                out.append(mk('preds', x))
        out = [mk('every' if f is and_ else 'some', x)
               if x.op in ('map', 'preds') else x for x in out]
        return f(*out)

    def pred(self, e, holes, local, cvars):
        rec = lambda x: self.pred(x, holes, local, cvars)
        if isinstance(e, ast.Name):
            if e.id in holes:
                return holes[e.id]
            if e.id in cvars:
                return cvars[e.id]
            if e.id in ('time', 'trajid'):
                return mk('col', const(e.id))
            if e.id in local:
                return local[e.id]
            return mk('col', const(e.id))
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Compare):
            out, l = [], rec(e.left)
            for op, r in zip(e.ops, e.comparators):
                r = rec(r)
                out.append(compare(type(op).__name__, l, r))
                l = r
            if len(out) > 1:
                return mk('chained', *out)
            return out[0]
        if isinstance(e, ast.BinOp):
            op = type(e.op).__name__
            if op in ('BitAnd', 'BitOr'):
                x, y = rec(e.left), rec(e.right)
                return and_(x, y) if op == 'BitAnd' else or_(x, y)
            return binop(op, rec(e.left), rec(e.right))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Invert):
                return not_(rec(e.operand))
            if isinstance(e.op, ast.USub):
                return neg(rec(e.operand))
        return mk('badquery', const(ast.unparse(e)))

    # ------------------------------------------------------------ builtins

    def g_len(self, args, kw, node):
        it = self.it
        c = it.content(args[0])
        if c.op == 'obj':
            m = it.method(c, '__len__')
            if m is not None:
                return it.call(m, [], [])
        if c.op in ('gen', 'zip', 'enumerate', 'items', 'range', 'iter'):
            v = it.iter_view(c)
            if v is not None and v[2] is TRUE:
                return v[0]
        if c.op in ('list', 'tuple', 'dict', 'map', 'rep', 'lcat'):
            return length(c)
        return length(it.deref(c))

    def g_range(self, args, kw, node):
        a = [self.it.deref(x) for x in args]
        if any(x.op == 'starred' for x in a):
            # range(*pair)
            s = a[0]
            c = self.it.deref(s.a[0])
            return mk('range', sub(c, ZERO), sub(c, ONE), ONE)
        if any(x.op == 'ite' for x in a):
            return lift(self._range, a)
        return self._range(*a)

    def _range(self, *a):
        if len(a) == 1:
            return mk('range', ZERO, a[0], ONE)
        if len(a) == 2:
            return mk('range', a[0], a[1], ONE)
        return mk('range', *a)

    g_builtins_range = g_range

    def g_enumerate(self, args, kw, node):
        start = ZERO
        if len(args) > 1:
            start = self.it.deref(args[1])
        for n, v in kw:
            if n == 'start':
                start = self.it.deref(v)
        return mk('enumerate', args[0], start)

    def g_zip(self, args, kw, node):
        it = self.it
        if len(args) == 1 and args[0].op == 'starred':
            c = it.deref(it.content(it.iterlist(args[0].a[0])))
            return self.unzip(c)
        return mk('zip', *args)

    g_itertools_izip = None

    def unzip(self, c):
        if c.op == 'ite':
            return ite(c.a[0], self.unzip(c.a[1]), self.unzip(c.a[2]))
        if c.op == 'map':
            h, n, v, cond = c.a
            if v.op == 'tuple':
                return mk('list', *[mkmap(h, n, x, cond) for x in v.a])
        if c.op == 'list' and c.a and all(x.op == 'tuple' for x in c.a):
            return mk('list', *[mk('tuple', *x)
                                for x in zip(*[y.a for y in c.a])])
        return call('unzip', c)

    def g_map(self, args, kw, node):
        it = self.it
        f = args[0]
        seq = args[1] if len(args) == 2 else mk('zip', *args[1:])
        out = it.alloc(mk('list'))

        def body(v):
            a = [v] if len(args) == 2 else list(it.content(v).a)
            it.append(out, it.call(f, a, []))
        it.for_each(seq, body)
        return out

    def g_filter(self, args, kw, node):
        it = self.it
        f, seq = args
        out = it.alloc(mk('list'))

        def body(v):
            r = it.call(f, [v], []) if it.content(f) is not NONE else v
            c = truth(it.deref(r))
            it.branch(c, lambda: it.append(out, v), lambda: None)
        it.for_each(seq, body)
        return out

    def g_list(self, args, kw, node):
        it = self.it
        if not args:
            return it.alloc(mk('list'))
        c = it.content(args[0])
        if kind(c) == 'dict':
            return it.alloc(keys(it.deref(c)))
        if c.op == 'obj' and it.method(c, '__iter__') is None:
            return None
        r = it.content(it.iterlist(args[0]))
        if r.op == 'tuple':
            r = mk('list', *r.a)
        return it.alloc(r)

    def g_tuple(self, args, kw, node):
        it = self.it
        if not args:
            return mk('tuple')
        r = it.content(it.iterlist(args[0]))
        if r.op in ('list', 'tuple'):
            return mk('tuple', *r.a)
        r = it.deref(r)
        if kind(r) == 'tuple':
            return r
        return call('tuple', r)

    def g_iter(self, args, kw, node):
        it = self.it
        c = it.content(args[0])
        if c.op == 'iter' or c.op == 'gen':
            return args[0]
        if c.op == 'obj':
            m = it.method(c, '__iter__')
            if m is not None:
                return it.call(m, [], [])
        return it.alloc(mk('iter', args[0], ZERO))

    def g_itertools_tee(self, args, kw, node):
        it = self.it
        seq = it.iterlist(args[0])
        n = int(num(args[1])) if len(args) > 1 else 2
        return mk('tuple', *[it.alloc(mk('iter', seq, ZERO))
                             for _ in range(n)])

    def g_itertools_islice(self, args, kw, node):
        it = self.it
        c = it.deref(it.content(it.iterlist(args[0])))
        a = [it.deref(x) for x in args[1:]]
        if len(a) == 1:
            a = [NONE] + a
        while len(a) < 3:
            a.append(NONE)
        return it.alloc(sub(c, mk('slice', *a)))

    def g_slice(self, args, kw, node):
        a = [self.it.deref(x) for x in args]
        if len(a) == 1:
            a = [NONE] + a
        return mk('slice', *(a + [NONE] * (3 - len(a))))

    def g_itertools_pairwise(self, args, kw, node):
        it = self.it
        seq = it.iterlist(args[0])
        return mk('zip', it.alloc(mk('iter', seq, ZERO)),
                  it.alloc(mk('iter', seq, ONE)))

    def g_itertools_chain(self, args, kw, node):
        it = self.it
        c = mk('list')
        for x in args:
            c = seqcat(c, it.aslist(x))
        return it.alloc(c)

    def g_itertools_count(self, args, kw, node):
        it = self.it
        lo = it.deref(args[0]) if args else ZERO
        return mk('range', lo, mk('glob', 'numpy.inf'), ONE)

    def g_abandon(self, args, kw, node):
        """(Specifications) take one item of a generator and close it."""
        it = self.it
        c = it.content(args[0])
        if c.op != 'gen':
            raise Undecided('abandon of ' + show(c)[:60])

        def hook(v):
            it.dead = 'gexit'
            return NONE
        it.run_gen(c, hook)
        if it.dead == 'gexit':
            it.dead = None
        elif not it.dead:
            raise Undecided('a generator that gives nothing')
        return NONE

    def g_next(self, args, kw, node):
        it = self.it
        b = args[0]
        c = it.content(b)
        if c.op == 'gen' and node is not None and \
                isinstance(node.args[0], ast.Name):
            l = it.content(it.materialise(c))
            b = it.alloc(mk('iter', it.alloc(l), ZERO))
            it.setvar(node.args[0].id, b)
            c = it.content(b)
        if c.op == 'iter' and any('StopIteration' in str(t[1])
                                  for t in it.tries):
            v = it.iter_view(c.a[0])
            if v is not None and v[2] is TRUE:
                g = le(v[0], c.a[1])
                if g is not FALSE:
                    it.event('raise', 'StopIteration', mk('stop'), extra=g)
                    it.assume(not_(g), True)
        if c.op == 'iter':
            seq, off = c.a
            if b.op == 'ref':
                it.S[('h', b.a[0])] = mk('iter', seq, add(off, ONE))
            return it.getitem(seq, off)
        if c.op == 'obj':
            m = it.method(c, '__next__')
            if m is not None:
                return it.call(m, [], [])
        if c.op == 'gen':
            # the first element; the rest is not followed
            l = it.content(it.materialise(c))
            new = it.alloc(mk('iter', it.alloc(l), ONE))
            if node is not None and isinstance(node.args[0], ast.Name):
                it.setvar(node.args[0].id, new)
            return it.getitem(it.alloc(l), ZERO)
        return None

    def g_dict(self, args, kw, node):
        it = self.it
        d = mkdict([])
        if args:
            d = self.todict(args[0])
        for n, v in kw:
            if n is None:
                d = dupdate(d, it.content(v))
            else:
                d = dset(d, const(n), v)
        return it.alloc(d)

    g_collections_OrderedDict = g_dict

    def g_collections_defaultdict(self, args, kw, node):
        it = self.it
        f = args[0] if args else NONE
        r = self.g_dict(args[1:], kw, node)
        if f is not NONE:
            if r.op != 'ref':
                raise Undecided('a dictionary with defaults')
            it.factories[r.a[0]] = f
        return r

    def g_collections_namedtuple(self, args, kw, node):
        it = self.it
        a, k = self.args(args, kw)
        if len(a) == 2 and not k and a[0].op == 'const':
            f = a[1]
            if f.op == 'const' and f.a[0] == 'str':
                f = f.a[1].replace(',', ' ').split()
            elif f.op in ('list', 'tuple') and all(
                    x.op == 'const' for x in f.a):
                f = [x.a[1] for x in f.a]
            else:
                f = None
            if f:
                return it.namedtuple(a[0].a[1], f)
        return call('collections.namedtuple', *a)

    def todict(self, v):
        it = self.it
        c = it.content(v)
        if kind(c) == 'dict':
            return c
        out = it.alloc(mkdict([]))

        def body(x):
            k = it.deref(it.getitem(x, ZERO))
            val = it.getitem(x, ONE)
            cc = it.content(out)
            it.S[('h', out.a[0])] = mk('dupd', cc, k, val) \
                if cc.op == 'lv' else dset(cc, k, val)
        it.for_each(v, body)
        return it.content(out)

    def g_set(self, args, kw, node):
        it = self.it
        if not args:
            return it.alloc(mk('set'))
        c = it.content(args[0])
        if kind(c) == 'dict':
            c = keys(it.deref(c))
        elif c.op in ('gen', 'zip', 'range', 'enumerate', 'iter', 'items'):
            c = it.content(it.iterlist(args[0]))
        return toset(it.deref(c))

    g_frozenset = g_set

    def g_sorted(self, args, kw, node):
        it = self.it
        c = it.content(args[0])
        if kind(c) == 'dict':
            c = keys(it.deref(c))
        elif c.op in ('gen', 'zip', 'range', 'enumerate', 'iter', 'items'):
            c = it.content(it.iterlist(args[0]))
        k = [(n, it.deref(v)) for n, v in kw]
        k = [(n, v) for n, v in k if not (n == 'reverse' and v is FALSE)]
        d = it.deref(c)
        if d.op == 'list' and not k and d.a and all(
                x.op == 'const' and x.a[0] == d.a[0].a[0] for x in d.a):
            return it.alloc(mk('list', *sorted(d.a, key=lambda x: x.a[1])))
        return it.alloc(self.lifted('sorted', [d], k))

    def g_reversed(self, args, kw, node):
        return mk('reversed', args[0])

    def reduce(self, args, kw, f):
        it = self.it
        out = it.fresh()
        acc = it.alloc(ZERO)
        raise Undecided('reduce')

    def g_sum(self, args, kw, node):
        it = self.it
        c = it.content(args[0])
        if c.op in ('list', 'tuple'):
            return add(ZERO, *[it.deref(x) for x in c.a])
        c = it.deref(it.content(it.iterlist(args[0]))) if c.op in (
            'gen', 'zip', 'range', 'items', 'values') else it.deref(c)
        if c.op == 'ite':
            return lift(self._sum, [c])
        return self._sum(c)

    def _sum(self, c):
        if c.op in ('list', 'tuple'):
            return add(ZERO, *c.a)
        if c.op == 'map':
            h, n, v, cond = c.a
            return lsum(h, n, ite(cond, v, ZERO))
        return call('numpy.sum', c)

    def quant(self, args, isany):
        it = self.it
        c = it.content(args[0])
        if c.op in ('gen', 'zip', 'range', 'items', 'values'):
            c = it.content(it.iterlist(args[0]))
        c = it.deref(c)
        f = or_ if isany else and_

        def go(c):
            if c.op == 'ite':
                return ite(c.a[0], go(c.a[1]), go(c.a[2]))
            if c.op in ('list', 'tuple'):
                return f(*[truth(x) for x in c.a])
            if c.op == 'map':
                h, n, v, cond = c.a
                if isany:
                    return mk('exists', h, n, and_(truth(v), cond))
                return not_(mk('exists', h, n, and_(not_(truth(v)), cond)))
            return call('numpy.any' if isany else 'numpy.all', c)
        return go(c)

    def g_any(self, args, kw, node):
        return self.quant(args, True)

    def g_all(self, args, kw, node):
        return self.quant(args, False)

    def g_min(self, args, kw, node):
        return self.minmax('min', args, kw)

    def g_max(self, args, kw, node):
        return self.minmax('max', args, kw)

    def minmax(self, name, args, kw):
        it = self.it
        if len(args) == 1 and not kw:
            c = it.content(args[0])
            if c.op in ('gen', 'zip', 'range', 'items', 'values'):
                c = it.content(it.iterlist(args[0]))
            c = it.deref(c)
            if c.op in ('list', 'tuple') and len(c.a) == 2:
                return self.lifted(name, list(c.a), [])
            return self.lifted('numpy.' + name, [c], [])
        return None

    def g_str(self, args, kw, node):
        if not args:
            return const('')
        c = self.it.deref(args[0])
        return fmtv('s', c)

    def g_repr(self, args, kw, node):
        return fmtv('r', self.it.deref(args[0]))

    def g_bool(self, args, kw, node):
        if not args:
            return FALSE
        return truth(self.it.deref(args[0]))

    def g_isinstance(self, args, kw, node):
        it = self.it
        c = it.content(args[0])
        t = it.deref(args[1])
        k = kind(c)
        ts = t.a if t.op == 'tuple' else (t,)
        names = [x.a[0] for x in ts if x.op == 'glob']
        if k in ('int', 'float', 'str', 'list', 'tuple', 'dict', 'bool') and \
                len(names) == len(ts):
            return const(k in names)
        if c.op == 'obj':
            cls = it.objs[c.a[0]][0]
            ns = [m.name for m in cls.mro(it)]
            return const(any(x.op == 'class' and x.a[0] in ns for x in ts))
        return call('isinstance', it.deref(c), t)

    def g_getattr(self, args, kw, node):
        n = self.it.deref(args[1])
        if n.op == 'const':
            r = self.it.getattr(args[0], n.a[1])
            if r.op == 'missing' and len(args) > 2:
                return args[2]
            return r
        c = self.it.content(args[0])
        if c.op in ('param', 'new') or self.isset(c):
            return mk('accessork', args[0], n)
        return call('getattr', self.it.deref(args[0]), n)

    def g_setattr(self, args, kw, node):
        n = self.it.deref(args[1])
        if n.op == 'const':
            self.it.setattr(args[0], n.a[1], args[2])
            return NONE
        raise Undecided('setattr')

    def g_hasattr(self, args, kw, node):
        it = self.it
        n = it.deref(args[1])
        c = it.content(args[0])
        if c.op == 'obj' and n.op == 'const':
            return const(it.getattr(c, n.a[1]).op != 'missing')
        if c.op == 'new' or c.op == 'param' and c.a[1] in ('traj', 'snap'):
            if n.op == 'const' and n.a[1] in self.MANDATORY:
                return TRUE
            return mk('hasprop', it.deref(c), n)
        return call('hasattr', it.deref(c), n)

    def g_type(self, args, kw, node):
        c = self.it.content(args[0])
        if c.op == 'obj':
            return self.it.S[('f', c.a[0], '__class__')]
        return None

    def g_vars(self, args, kw, node):
        return self.it.getattr(args[0], '__dict__')

    def g_callable(self, args, kw, node):
        return TRUE

    def g_id(self, args, kw, node):
        return None

    def g_types_MethodType(self, args, kw, node):
        return mk('bound', args[1], args[0])

    def g_functools_partial(self, args, kw, node):
        return mk('partial', args[0], mk('tuple', *args[1:]), mk('kw', *[
            mk('kwp', n, v) for n, v in kw]))

    def g_print(self, args, kw, node):
        return NONE

    def g_object___init__(self, args, kw, node):
        return NONE

    def g_object(self, args, kw, node):
        return mk('anobject')

    def g_configparser_ConfigParser(self, args, kw, node):
        return self.it.alloc(mk('cfg', NONE))

    g_configparser_SafeConfigParser = g_configparser_ConfigParser

    def g_stored(self, args, kw, node):
        """(obligations only) name of a file the configuration is saved to"""
        return mk('cfgpath', self.it.deref(args[0]))

    def g_numpy_append(self, args, kw, node):
        return None

    def g_numpy_ndenumerate(self, args, kw, node):
        return None

    def g_numpy_vectorize(self, args, kw, node):
        return mk('vectorized', args[0])

    def g_numpy_fromiter(self, args, kw, node):
        it = self.it
        return arr(it.deref(it.content(it.iterlist(args[0]))))

    def g_numpy_array(self, args, kw, node):
        it = self.it
        c = it.content(args[0])
        if c.op in ('gen', 'zip', 'range'):
            l = it.iterlist(args[0])
            return self.glob('numpy.array', [l] + list(args[1:]), kw)
        return None

    def g_numpy_apply_along_axis(self, args, kw, node):
        return None

    def changed(self, name, args, kw, node):
        """Library functions that change their first argument."""
        it = self.it
        it.mutated(args[0], name, node.args[0] if node is not None and
                   node.args else None)
        a, k = self.args(args, kw)
        k = dict(k)
        new = None
        if name in ('numpy.copyto', 'numpy.putmask', 'numpy.place'):
            names = {'numpy.copyto': ('dst', 'src', 'casting', 'where'),
                     'numpy.putmask': ('a', 'mask', 'values'),
                     'numpy.place': ('arr', 'mask', 'vals')}[name]
            k.update(zip(names, a))
            if name == 'numpy.copyto' and set(k) <= {'dst', 'src', 'where'}:
                m = k.get('where', TRUE)
                new = upd(k['dst'], FULL if m is TRUE else m, k['src'] if
                          m is TRUE or kind(k['src']) in ('int', 'float')
                          else sub(k['src'], m))
            elif set(k) == set(names) and kind(k[names[2]]) in (
                    'int', 'float', 'bool'):
                new = upd(k[names[0]], k[names[1]], k[names[2]])
        elif name == 'numpy.fill_diagonal' and len(a) == 2:
            pass
        if new is None:
            k = [(n, k[n]) for n in sorted(k)] if name not in (
                'numpy.copyto', 'numpy.putmask', 'numpy.place') else [
                    (n, k[n]) for n in sorted(k) if n not in names[:1]]
            new = self.build(name, a if name not in (
                'numpy.copyto', 'numpy.putmask', 'numpy.place') else
                a[:1], k)
        self.write_arg(args[0], new, node, 0)
        return NONE

    def write_arg(self, b, new, node, i):
        it = self.it
        if b.op == 'ref':
            it.S[('h', b.a[0])] = new
            return
        e = None
        if isinstance(i, str):
            for w in node.keywords if node is not None else ():
                if w.arg == i:
                    e = w.value
        elif node is not None and i < len(node.args):
            e = node.args[i]
        if e is None or isinstance(e, ast.Starred):
            it.event('untracked', 'expr', new)
        else:
            it.store_back(e, b, new)


def recv(node):
    return node.func.value if node is not None and isinstance(
        node.func, ast.Attribute) else None


def it_hasref(c):
    from .interp import _hasref
    return _hasref(c)


def _fmt_rebuild(*a):
    return mk('call', *a)


_rec = [0]


@builder('call')
def rebuild_call(f, args, kw):
    """Re-normalise a call after a substitution."""
    from .terms import lift
    if f.op == 'glob':
        name = f.a[0]
        L = _L
        a = list(args.a)
        k = [(p.a[0], p.a[1]) for p in kw.a]
        if name in ('numpy.r_', 'numpy.c_', 'str.percent', 'unzip',
                    'astype') or name.startswith(('str', 'list.')):
            return mk('call', f, args, kw)
        if name in ('numpy.sum', 'numpy.nonzero', 'numpy.array', 'int',
                    'float', 'min', 'max', 'numpy.transpose', 'numpy.isin',
                    'numpy.where'):
            return L.lifted(name, a, k)
    if f.op == 'lam' and not kw.a and f.a[0] == len(args.a):
        pass
    return mk('call', f, args, kw)


@builder('prop')
def rebuild_prop(o, name):
    if o.op == 'new':
        v = get_prop(o, name)
        if v is not None:
            return v
    if o.op == 'ite':
        return ite(o.a[0], rebuild_prop(o.a[1], name),
                   rebuild_prop(o.a[2], name))
    return mk('prop', o, name)


@builder('props')
def rebuild_props(o):
    if o.op == 'new':
        return _L.as_dict(o)
    return mk('props', o)


@builder('new')
def rebuild_new(cls, d):
    return mk('new', cls, d)


class _NoInterp(object):
    pass


_L = Lib(_NoInterp())
