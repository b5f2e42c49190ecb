"""
Rules about what operations do besides giving a result, decided from the
events of the value-flow analysis of props/clients.py on the current source.
"""
from vsa.findings import rule, Finding, Outcome
from vsa.terms import *
from props import clients

PLAIN = frozenset(['int', 'float', 'str', 'bool', 'opt', 'none', 'cfg'])


def at(src):
    return '%s:%s' % (src[0], src[1]) if src else '?'


def each(sources, groups=None):
    for c in clients.C:
        if groups and not set(c.group) & set(groups):
            continue
        r = clients.run(sources, c)
        yield c, (None if isinstance(r, str) else r), r


def kinds_of(c):
    return dict((p.partition(':')[0], p.partition(':')[2])
                for p in c.params.split())


# ------------------------------------------------------------------- X02
BAD_X02 = '''
def go(a, t, l):
    b = a
    b[0] = 1.
    t.pos()[:] = 0
    l.append(3)
'''


def changed(r, kd):
    """Events of the analysis that change a parameter: (event, name, how)"""
    for e in r.events:
        if e.kind != 'mutate' or e.guard is FALSE:
            continue
        n = e.name
        if not isinstance(n, str):
            n = n.a[0] if getattr(n, 'op', '') == 'param' else str(n)
        if kd.get(n, '') in PLAIN:
            continue
        yield e, n, e.term.a[1]


@rule('X02', 'arguments are not changed')
def x02(sources):
    out = Outcome()
    n = m = 0
    seen = set()
    for c, r, why in each(sources):
        if r is None:
            out.undecided.append('%s: %s' % (c.name, why))
            continue
        n += 1
        out.functions.update(r.called)
        kd = kinds_of(c)
        m += sum(1 for k in kd.values() if k not in PLAIN)
        for e, p, how in changed(r, kd):
            k = (e.src, e.func)
            if k in seen:
                continue
            seen.add(k)
            out.findings.append(Finding(
                'arguments are not changed', at(e.src), e.func,
                '%s changes what it was given (client "%s", argument %s, by '
                '%s)' % (e.func, c.name, p, how)))
        if len(out.samples) < 6:
            out.samples.append({'client': c.name, 'functions':
                                sorted(r.called)[:8]})
    out.examined = {'client operations': n, 'mutable arguments': m}
    from vsa.engine import analyse
    t = analyse(sources, BAD_X02, [('a', 'arr2'), ('t', 'traj'),
                                   ('l', 'list')], name='go')
    hits = len(set(e.src for e, _, _ in changed(t, {})))
    out.examined['self-test: changes found of 3'] = hits
    return out


# ------------------------------------------------------------ files opened
OPENERS = frozenset(['tables.open_file', 'tables.file.open_file',
                     'tables.openFile', 'tables.File', 'open', 'io.open',
                     'codecs.open', 'h5py.File', 'builtins.open', 'os.open'])


def strip_close(t):
    """The handle under wrappers that close it."""
    while t.op == 'call' and t.a[0].op == 'glob' and \
            t.a[0].a[0] in ('contextlib.closing',) and t.a[1].a:
        t = t.a[1].a[0]
    return t


def opened(r):
    return [e for e in r.events if e.kind == 'call' and e.name in OPENERS and
            isinstance(e.term, T) and e.guard is not FALSE]


def uids(e):
    return [lp.uid for lp in e.loops]


def kept(r, h):
    """The handle is held by an object or given back."""
    for k, v in list(r.it.S.items()):
        if k[0] == 'f' and isinstance(v, T) and r.it.deref(v) is h:
            return True
    v = r.value
    if isinstance(v, T):
        return v is h or (v.op in ('tuple', 'list') and h in v.a)
    return False


def passed(r, h):
    for e in r.events:
        t = e.term
        if e.kind == 'call' and isinstance(t, T) and t.op == 'call' and \
                len(t.a) > 1 and isinstance(t.a[1], T):
            args = t.a[1].a
            if t.a[0].op == 'meth':
                args = args[1:]
            if h in args:
                return True
    return False


def left_open(r):
    """
    (open event, why) for handles nobody closes, and (event, None) for those
    it cannot be told of.
    """
    closes = [e for e in r.events if e.kind == 'call' and e.name == 'close'
              and isinstance(e.term, T) and e.term.op == 'call' and
              e.term.a[1].a]
    ops = opened(r)
    hs = [e.term for e in ops]
    for e in ops:
        h = e.term
        if kept(r, h):
            continue
        mine = [c for c in closes if strip_close(c.term.a[1].a[0]) is h]
        strange = [c for c in closes
                   if strip_close(c.term.a[1].a[0]) not in hs]
        same = [c for c in mine if uids(c) == uids(e)]
        if not same:
            if mine or strange or passed(r, h) or \
                    any(x.kind == 'untracked' for x in r.events):
                yield e, None
            else:
                yield e, 'is never closed'
            continue
        gs = [c.guard for c in same]
        if any(g is TRUE or g is e.guard for g in gs):
            continue
        gs += [x.guard for x in r.events if x.kind == 'raise' and
               uids(x) == uids(e)]
        done = or_(*gs)
        res = and_(e.guard, not_(done))
        if res is FALSE:
            continue
        if len(same) != len(mine) or strange:
            yield e, None
            continue
        from vsa.diff import Cmp, DIFF, EQ
        from vsa.oblig import LIMIT
        import time
        c = Cmp()
        Cmp.until = time.time() + LIMIT
        q = c.top(and_(e.guard, done), e.guard)
        if q.s == EQ:
            continue
        yield e, None if q.s != DIFF else 'is not closed when ' + show(res, 5)


BAD_X03 = '''
import tables
def go(fn, a, x):
    f = tables.open_file(fn, 'w')
    if a > 3:
        return 2
    f.close()
    g = open(fn)
    s = g.read()
    with open(x) as h:
        return h.read() + s
'''


@rule('X03', 'what is opened is closed')
def x03(sources):
    out = Outcome()
    n = m = 0
    seen = set()
    for c, r, why in each(sources, ('read', 'write', 'conf', 'calc', 'data',
                                    'query')):
        if r is None:
            out.undecided.append('%s: %s' % (c.name, why))
            continue
        n += 1
        out.functions.update(r.called)
        ops = opened(r)
        m += len(ops)
        for e, how in left_open(r):
            if e.src in seen:
                continue
            seen.add(e.src)
            if how is None:
                out.undecided.append('%s in %s' % (at(e.src), e.func))
                continue
            out.findings.append(Finding(
                'what is opened is closed', at(e.src), e.func,
                'a file opened in %s %s (client "%s")' % (e.func, how,
                                                          c.name)))
        if ops and len(out.samples) < 6:
            out.samples.append({'client': c.name, 'opened':
                                [at(e.src) for e in ops]})
    from vsa.engine import analyse
    t = analyse(sources, BAD_X03, [('fn', 'str'), ('a', 'int'), ('x', 'str')],
                name='go')
    out.examined = {'client operations': n, 'files opened': m,
                    'self-test: files left open found of 2':
                        len([1 for e, how in left_open(t) if how])}
    return out


# ------------------------------------------------------------------- H08
WRITING = frozenset('''
create_table create_array create_carray create_earray create_vlarray
create_group create_index create_csindex create_external_link
create_soft_link create_hard_link append remove remove_node remove_row
remove_rows remove_index rename rename_node move_node modify_column
modify_columns modify_coordinates modify_rows copy_file copy_node copy_children
set_attr set_node_attr del_attr del_node_attr truncate reindex reindex_dirty
write writelines tofile savetxt enable_undo undo update write_text
write_bytes unlink touch mkdir rmdir replace
'''.split())
DISK = frozenset('''
os.remove os.unlink os.rename os.replace os.renames os.rmdir os.removedirs
os.mkdir os.makedirs os.truncate os.symlink os.link os.chmod os.utime
shutil.rmtree shutil.move shutil.copy shutil.copyfile shutil.copy2
shutil.copytree tables.copy_file numpy.save numpy.savez
numpy.savez_compressed numpy.savetxt scipy.io.savemat
numpy.lib.format.open_memmap
'''.split())


def opened_from(t, depth=0):
    """The file a value is a part of."""
    while isinstance(t, T) and depth < 60:
        depth += 1
        if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in OPENERS:
            return t
        if t.op == 'call' and t.a[0].op == 'meth' and t.a[1].a:
            if t.a[0].a[0].startswith('read') or t.a[0].a[0] in (
                    'copy', 'tolist', 'where', 'iterrows'):
                return None
            t = t.a[1].a[0]
        elif t.op in ('attr', 'sub', 'setattr'):
            t = t.a[0]
        elif t.op == 'fold' or t.op == 'ite':
            for x in t.a:
                if isinstance(x, T):
                    f = opened_from(x, depth + 10)
                    if f is not None:
                        return f
            return None
        else:
            return None
    return None


def mode_of(t):
    """The mode a file is opened with: text, '' for the default, or None."""
    name = t.a[0].a[0]
    for k in t.a[2].a:
        if isinstance(k, T) and len(k.a) == 2 and k.a[0] in ('mode',):
            m = k.a[1]
            return m.a[1] if m.op == 'const' else None
    if len(t.a[1].a) > 1:
        m = t.a[1].a[1]
        return m.a[1] if m.op == 'const' and m.a[0] == 'str' else None
    return ''


def writes(r):
    """(event, what) of whatever changes a file."""
    for e in r.events:
        t = e.term
        if e.guard is FALSE or not isinstance(t, T):
            continue
        if e.kind == 'call' and e.name in OPENERS and t.op == 'call' and \
                t.a[0].op == 'glob':
            m = mode_of(t)
            if m is None:
                yield e, None
            elif m not in ('', 'r', 'rb', 'rt'):
                yield e, 'opens a file with mode %r' % m
        elif e.kind == 'call' and e.name in DISK:
            yield e, 'calls %s' % e.name
        elif e.kind == 'call' and e.name in WRITING and t.op == 'call' and \
                t.a[0].op == 'meth' and t.a[1].a and \
                opened_from(t.a[1].a[0]) is not None:
            yield e, 'calls %s of a part of the file' % e.name
        elif e.kind == 'setattr' and opened_from(t.a[0]) is not None:
            yield e, 'sets attribute %s of a part of the file' % e.name


BAD_H08 = '''
import tables, os
def go(fn, a):
    f = tables.open_file(fn)
    t = f.get_node('/x')
    t.cols.time.create_index()
    t._v_attrs.foo = a
    g = tables.open_file(fn, mode='a')
    os.remove(fn)
'''


@rule('H08', 'reading writes nothing')
def h08(sources):
    out = Outcome()
    n = m = 0
    seen = set()
    for c, r, why in each(sources, ('scene', 'read')):
        if r is None:
            out.undecided.append('%s: %s' % (c.name, why))
            continue
        n += 1
        out.functions.update(r.called)
        m += len(opened(r))
        for e, how in writes(r):
            if e.src in seen:
                continue
            seen.add(e.src)
            if how is None:
                out.undecided.append('%s: mode of opening' % at(e.src))
                continue
            out.findings.append(Finding(
                'reading writes nothing', at(e.src), e.func,
                '%s %s (client "%s")' % (e.func, how, c.name)))
        if len(out.samples) < 6 and opened(r):
            out.samples.append({'client': c.name, 'opened': [
                [at(e.src), show(e.term, 4)] for e in opened(r)]})
    from vsa.engine import analyse
    t = analyse(sources, BAD_H08, [('fn', 'str'), ('a', 'int')], name='go')
    out.examined = {'client operations': n, 'files opened': m,
                    'self-test: changes of files found of 4':
                        len([1 for e, how in writes(t) if how])}
    return out


# ------------------------------------------------------------------- R05
LISTING = frozenset(['os.listdir', 'glob.glob', 'os.scandir', 'os.walk',
                     'glob.iglob', 'glob.glob1', 'os.fwalk'])
LISTMETH = frozenset(['iterdir', 'glob', 'rglob'])
SETTLED = frozenset('''sorted len set frozenset min max sum any all
numpy.unique numpy.sort numpy.min numpy.max numpy.sum numpy.any numpy.all
numpy.amin numpy.amax collections.Counter'''.split())
ORDERED_OPS = frozenset('''map list tuple sub fold ite carried arr upd add mul
attr prop call kw pair hstack str strcat fmtv eq ne le lt and or not seqcat
lcat truth pow div not_ isnone slice traj record getprop props item new
acc bv ix const param glob meth dict setattr'''.split())
ORDERED_CALLS = frozenset('''int float str list tuple reversed enumerate
os.path.join os.path.basename os.path.splitext os.path.split
os.path.expanduser os.path.abspath numpy.loadtxt numpy.load numpy.array
numpy.asarray numpy.hstack numpy.vstack numpy.concatenate numpy.atleast_1d
numpy.atleast_2d numpy.genfromtxt open str.percent numpy.int_ numpy.full
numpy.full_like numpy.ones numpy.zeros numpy.repeat numpy.tile
numpy.column_stack numpy.r_ numpy.c_ numpy.stack numpy.append filter map zip
itertools.chain numpy.where numpy.empty numpy.isin numpy.diff
flowtracks.trajectory.Trajectory'''.split())
COMMUTES = frozenset(['len', 'count', 'exists', 'lsum', 'set', 'inn', 'in',
                      'smap'])


def listing(t):
    if t.op != 'call':
        return False
    f = t.a[0]
    return f.op == 'glob' and f.a[0] in LISTING or \
        f.op == 'meth' and f.a[0] in LISTMETH


def parts(t):
    todo, got = [t], set()
    while todo:
        x = todo.pop()
        if id(x) not in got:
            got.add(id(x))
            yield x
            todo.extend(y for y in x.a if isinstance(y, T))


def order_paths(t):
    """
    Paths from a result down to a listing of files: yields (listing, strange)
    where strange is an operation on the way that may settle the order, or
    None.
    """
    seen = {}

    def go(x, odd):
        if listing(x):
            yield x, odd
            return
        k = (id(x), odd)
        if k in seen:
            return
        seen[k] = 1
        if x.op == 'keys' and x.a[0].op == 'smap':
            # a set gives its elements in any order
            if any(listing(y) for y in parts(x)):
                yield x, odd or (None if x.a[0].a[2].op in ('tuple', 'str')
                                 else 'set')
            return
        if x.op in COMMUTES:
            return
        if x.op == 'fold' and odd is None and not any(
                y.op in ('lcat', 'seqcat') and any(
                    z.op == 'acc' for z in y.a if isinstance(z, T))
                for y in parts(x)):
            odd = 'fold'
        if x.op == 'call':
            f = x.a[0]
            n = f.a[0] if f.op in ('glob', 'meth') else None
            if f.op == 'glob' and n in SETTLED:
                return
            if odd is None and (f.op != 'meth' and n not in ORDERED_CALLS):
                odd = show(f, 2)
            elif odd is None and f.op == 'meth' and n not in (
                    'group', 'match', 'search', 'split', 'strip', 'replace',
                    'rsplit', 'partition', 'rpartition', 'T', 'astype',
                    'item', 'copy', 'reshape', 'read', 'lower', 'fullmatch',
                    'startswith', 'endswith', 'groups'):
                odd = '.' + str(n)
        elif odd is None and x.op not in ORDERED_OPS:
            odd = x.op
        for y in x.a:
            if isinstance(y, T):
                for z in go(y, odd):
                    yield z
    return go(t, None)


BAD_R05 = '''
import numpy as np
import os, glob
def go(d):
    tabs = []
    for f in os.listdir(d):
        if f.endswith('.x'):
            tabs.append(np.loadtxt(os.path.join(d, f)))
    good = [np.loadtxt(f) for f in sorted(glob.glob(d))]
    return np.vstack(tabs), good, len(os.listdir(d))
'''


@rule('R05', 'listings of files are put in order')
def r05(sources):
    out = Outcome()
    n = m = 0
    seen = set()
    for c, r, why in each(sources, ('read', 'conf')):
        if r is None or not isinstance(r.value, T):
            if r is None:
                out.undecided.append('%s: %s' % (c.name, why))
            continue
        n += 1
        out.functions.update(r.called)
        ls = set(x for x in parts(r.value) if listing(x))
        m += len(ls)
        odd, bad = {}, {}
        for x, o in order_paths(r.value):
            (bad if o is None else odd).setdefault(x, o)
        for x in bad:
            src = x.src
            if src in seen:
                continue
            seen.add(src)
            out.findings.append(Finding(
                'listings of files are put in order', at(src),
                c.name, 'the order of %s shows in the result (client "%s")'
                % (show(x, 3), c.name)))
        for x in odd:
            if x not in bad:
                out.undecided.append('%s: order of %s after %s' % (
                    c.name, show(x, 2), odd[x]))
        if ls and len(out.samples) < 6:
            out.samples.append({'client': c.name, 'listings': [
                show(x, 3) for x in ls]})
    from vsa.engine import analyse
    t = analyse(sources, BAD_R05, [('d', 'str')], name='go')
    out.examined = {'client operations': n, 'listings reaching results': m,
                    'self-test: orders not settled found of 1':
                        len(set(x for x, o in order_paths(t.value)
                                if o is None))}
    return out


# ------------------------------------------------------------------- R06
EMPTY = frozenset(['numpy.empty', 'numpy.empty_like', 'numpy.ndarray'])
SIZES = frozenset(['len', 'shape', 'ndim', 'props', 'keys', 'kind'])


def unfilled(t):
    return t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in EMPTY


def no_items(t):
    """An array without elements."""
    if not t.a[1].a:
        return True             # a shape given by name: not looked into
    s = t.a[1].a[0]
    if t.a[0].a[0] == 'numpy.empty_like':
        return False
    xs = [s]
    for x in xs:
        if x.op in ('tuple', 'list', 'lcat'):
            xs.extend(y for y in x.a if isinstance(y, T))
    return any(num(x) == 0 for x in xs)


def whole(i):
    if i.op == 'slice':
        return all(x is NONE or num(x) == 0 or num(x) == 1 and k == 2
                   for k, x in enumerate(i.a) if isinstance(x, T)) and \
            (len(i.a) < 2 or i.a[1] is NONE)
    return i.op == 'ell' or i.op == 'const' and i.a[0] == 'ellipsis'


def is_mask(i):
    return i.op in ('lt', 'le', 'eq', 'ne', 'not') and any(
        str(kind(x)).startswith(('arr', 'barr')) for x in parts(i)
        if x.op == 'param')


def found(i):
    """Indices of what meets a condition."""
    return i.op == 'sub' and i.a[0].op == 'call' and \
        i.a[0].a[0].op == 'glob' and \
        i.a[0].a[0].a[0] in ('numpy.nonzero', 'numpy.where') and \
        len(i.a[0].a[1].a) == 1


def span(i):
    """A part given by constants: a slice or an int, or None."""
    if i.op == 'tuple' and i.a:
        if not all(isinstance(y, T) and whole(y) for y in i.a[1:]):
            return None
        i = i.a[0]
    n = num(i)
    if n is not None:
        return int(n) if n == int(n) else None
    if i.op != 'slice':
        return None
    c = []
    for x in list(i.a) + [NONE] * (3 - len(i.a)):
        n = None if x is NONE else num(x) if isinstance(x, T) else x
        if x is not NONE and (n is None or n != int(n)):
            return None
        c.append(None if n is None else int(n))
    return slice(*c)


def missed(idx):
    """A place of a long array which is in none of these parts, or None."""
    parts = [span(i) for i in idx]
    if not any(isinstance(x, slice) for x in parts) or None in parts or any(
            abs(y) > 40 for x in parts
            for y in ((x.start, x.stop, x.step) if isinstance(x, slice)
                      else (x,)) if y is not None):
        return None
    n = 200
    left = set(range(n))
    for x in parts:
        left.difference_update(range(n)[x] if isinstance(x, slice)
                               else [x % n])
    if not left:
        return None
    k = min(left)
    return k if k < n // 2 else k - n


def gaps(t):
    """
    Where elements of arrays made without values are never given any: yields
    (array, why or None).
    """
    plain, todo = set(), [t]
    while todo:                     # not part of a loop or a choice
        x = todo.pop()
        if id(x) not in plain:
            plain.add(id(x))
            if x.op in ('tuple', 'list', 'new', 'dict', 'call', 'kw', 'add',
                        'mul', 'arr', 'pair'):
                todo.extend(y for y in x.a if isinstance(y, T))
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in SIZES or x.op == 'attr' and x.a[-1] in ('dtype', 'shape',
                                                           'ndim', 'size'):
            continue
        if x.op == 'like':
            continue
        if unfilled(x):
            yield x, None if no_items(x) or id(x) not in plain else \
                'is used as it was made'
            continue
        if x.op in ('upd', 'lupd', 'lupdm', 'arr'):
            b, idx, other = x, [], False
            while True:
                if b.op == 'upd':
                    idx.append(b.a[1])
                    todo.extend(y for y in b.a[1:] if isinstance(y, T))
                    b = b.a[0]
                elif b.op in ('lupd', 'lupdm'):
                    other = True
                    todo.extend(y for y in b.a[2:] if isinstance(y, T))
                    b = b.a[1]
                elif b.op == 'arr':
                    b = b.a[0]
                else:
                    break
                if not isinstance(b, T):
                    break
            if isinstance(b, T) and unfilled(b):
                todo.extend(y for y in b.a[1].a if isinstance(y, T))
                hole = None if other or no_items(b) or not all(
                    isinstance(i, T) for i in idx) else missed(idx)
                if hole is not None:
                    yield b, 'has no value at %d' % hole
                elif id(x) not in plain or other or no_items(b) or any(
                        not isinstance(i, T) or whole(i) for i in idx):
                    yield b, None
                elif idx and all(found(i) for i in idx):
                    yield b, None if len(idx) > 1 else \
                        'has values only where %s' % show(idx[0], 4)
                elif idx and all(is_mask(i) for i in idx):
                    done = or_(*idx)
                    yield b, None if done is TRUE or len(idx) > 1 else \
                        'has values only where %s' % show(idx[0], 4)
                elif idx and all(num(i) is not None for i in idx):
                    yield b, 'has values only at %s' % ', '.join(
                        show(i, 2) for i in idx)
                else:
                    yield b, None
            elif isinstance(b, T):
                todo.append(b)
            continue
        todo.extend(y for y in x.a if isinstance(y, T))


BAD_R06 = '''
import numpy as np
def go(a, m):
    x = np.empty(len(a))
    x[m > 3] = 2
    y = np.empty((len(a), 3))
    y[:] = 1
    z = np.empty_like(a)
    z[0] = 3
    u = np.empty(3)
    v = np.empty_like(a)
    v[:-2] = 1
    v[-1:] = 0
    w = np.empty_like(a)
    w[:-2] = 1
    w[:-3:-1] = 0
    return x, y, z, u, v, w, np.empty(0)
'''


@rule('R06', 'no elements without a value')
def r06(sources):
    out = Outcome()
    n = 0
    seen, arrays = set(), set()
    for c, r, why in each(sources):
        if r is None:
            out.undecided.append('%s: %s' % (c.name, why))
            continue
        n += 1
        out.functions.update(r.called)
        ts = [r.value] + [e.term for e in r.events if e.kind in
                          ('call', 'setattr') and e.guard is not FALSE]
        for t in ts:
            if not isinstance(t, T):
                continue
            for x, how in gaps(t):
                arrays.add(x.src)
                if how is None or x.src in seen:
                    continue
                seen.add(x.src)
                out.findings.append(Finding(
                    'no elements without a value', at(x.src), c.name,
                    '%s %s (client "%s")' % (show(x, 3), how, c.name)))
    out.samples = sorted(at(x) for x in arrays)
    from vsa.engine import analyse
    t = analyse(sources, BAD_R06, [('a', 'arr1'), ('m', 'arr1')], name='go')
    out.examined = {'client operations': n,
                    'places that make arrays without values': len(arrays),
                    'self-test: gaps found of 4':
                        len([1 for x, how in gaps(t.value) if how])}
    return out


# ------------------------------------------------------------------- X04
import ast
import re
from vsa.seq import WHOLE

NARROW = frozenset('''int8 int16 uint8 uint16 uint32 float16 float32 half
single csingle byte ubyte short ushort intc_ Float32Col Int16Col Int8Col
UInt8Col UInt16Col Float16Col'''.split())
NARROWTEXT = re.compile(r'^[<>=|]?\d*(f[24]|i[12]|u[124]|[efhbBH])$')
NARROWNAME = re.compile(r'^(u?int(8|16)|float(16|32)|half|single|short)$')


def narrow_types(tree):
    """Uses of types too narrow: (node, what)"""
    skip = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Compare) or isinstance(x, ast.Call) and \
                isinstance(x.func, ast.Name) and \
                x.func.id in ('isinstance', 'issubclass'):
            skip.update(id(y) for y in ast.walk(x))
    for x in ast.walk(tree):
        if id(x) in skip:
            continue
        if isinstance(x, ast.Attribute) and x.attr in NARROW and \
                isinstance(x.ctx, ast.Load):
            yield x, x.attr
        elif isinstance(x, ast.Tuple) and len(x.elts) in (2, 3) and all(
                isinstance(y, ast.Constant) and isinstance(y.value, str)
                for y in x.elts[:2]) and NARROWTEXT.match(x.elts[1].value):
            yield x.elts[1], x.elts[1].value
        elif isinstance(x, ast.Call):
            vs = [k.value for k in x.keywords if k.arg == 'dtype']
            if isinstance(x.func, ast.Attribute) and \
                    x.func.attr in ('astype', 'view', 'dtype'):
                vs += x.args[:1]
            for v in vs:
                if isinstance(v, ast.Constant) and isinstance(v.value, str) \
                        and (NARROWTEXT.match(v.value) or
                             NARROWNAME.match(v.value)):
                    yield v, v.value


def elemtype(t, depth=0):
    """'int', 'float', 'bool' when the elements are surely that, or None."""
    if depth > 30 or not isinstance(t, T):
        return None
    k = kind(t)
    if t.op == 'param':
        return {'arr2': 'float', 'float': 'float', 'int': 'int',
                'bool': 'bool'}.get(k if isinstance(k, str) else None)
    if t.op == 'const':
        return t.a[0] if t.a[0] in ('int', 'float', 'bool') else None
    if t.op == 'rat':
        return 'float'
    if t.op in ('lt', 'le', 'eq', 'ne', 'not', 'and', 'or', 'truth'):
        return 'bool'
    if t.op in ('len', 'count', 'ix', 'bv'):
        return 'int'
    if t.op == 'prop':
        return 'float' if t.a[1] in ('pos', 'velocity', 'accel') else None
    if t.op in ('arr', 'sub', 'like'):
        return elemtype(t.a[0], depth + 1)
    if t.op == 'upd':
        return elemtype(t.a[0], depth + 1)
    if t.op == 'map':
        return elemtype(t.a[2], depth + 1)
    if t.op in ('pow', 'power') and isinstance(t.a[1], T) and \
            elemtype(t.a[1], depth + 1) == 'float':
        return 'float'
    if t.op in ('add', 'mul'):
        ks = [elemtype(x, depth + 1) for x in t.a]
        return 'float' if 'float' in ks else \
            'int' if all(x == 'int' for x in ks) else None
    if t.op == 'ite':
        a, b = (elemtype(x, depth + 1) for x in t.a[1:3])
        return 'float' if 'float' in (a, b) else a if a == b else None
    if t.op == 'call' and t.a[0].op == 'accessork':
        return 'any'
    if t.op == 'call' and t.a[0].op == 'glob':
        n = t.a[0].a[0]
        kw = [x for x in t.a[2].a if isinstance(x, T) and x.a[0] == 'dtype']
        if n in ('numpy.linalg.norm', 'numpy.exp', 'numpy.sqrt', 'numpy.mean',
                 'numpy.std', 'numpy.linspace', 'numpy.divide', 'numpy.log',
                 'numpy.interp', 'numpy.linalg.solve'):
            return 'float'
        if n in ('numpy.nonzero', 'numpy.argsort', 'numpy.argmin',
                 'numpy.argmax', 'numpy.lexsort', 'int', 'len'):
            return 'int'
        if n in ('numpy.zeros', 'numpy.ones', 'numpy.empty',
                 'numpy.loadtxt') and not kw:
            return 'float'
        if n == 'float':
            return 'float'
    return None


def cut_off(r):
    """Fractions put in arrays of whole numbers: (event, text)"""
    for e in r.events:
        if e.kind == 'stored' and e.guard is not FALSE:
            d, v = e.term.a
            if d.op == 'glob' and d.a[0] in WHOLE and \
                    elemtype(v) in ('float', 'any'):
                yield e, 'puts %s in an array of type %s' % (
                    show(v, 3), d.a[0])


BAD_X04 = '''
import numpy as np
def go(a, i):
    x = np.zeros(len(a), dtype=int)
    for j in range(len(a)):
        x[j] = np.linalg.norm(a[j])
    y = np.empty((4, 2), dtype=np.int64)
    y[:, 0] = i
    z = np.zeros_like(a, dtype=bool)
    z[0] = a[1]
    return x, y, z, a.astype(np.float32), np.ones(3, dtype='i2')
'''


@rule('X04', 'types hold the values')
def x04(sources):
    out = Outcome()
    n = m = 0
    seen = set()
    for mod, (path, tree) in sources.items():
        for x, what in narrow_types(tree):
            k = (path, x.lineno, what)
            if k in seen:
                continue
            seen.add(k)
            out.findings.append(Finding(
                'types hold the values', '%s:%d' % (path, x.lineno),
                '%s(%s)' % (mod, what),
                'elements of type %s cannot hold what is kept in them' % what))
    types = 0
    for mod, (path, tree) in sources.items():
        for x in ast.walk(tree):
            if isinstance(x, ast.Call):
                types += any(k.arg == 'dtype' for k in x.keywords) or \
                    isinstance(x.func, ast.Attribute) and \
                    x.func.attr in ('astype', 'dtype')
    for c, r, why in each(sources):
        if r is None:
            out.undecided.append('%s: %s' % (c.name, why))
            continue
        n += 1
        out.functions.update(r.called)
        m += sum(1 for e in r.events if e.kind == 'stored')
        for e, how in cut_off(r):
            if e.src in seen:
                continue
            seen.add(e.src)
            out.findings.append(Finding(
                'types hold the values', at(e.src), e.func,
                '%s %s (client "%s")' % (e.func, how, c.name)))
    from vsa.engine import analyse
    t = analyse(sources, BAD_X04, [('a', 'arr2'), ('i', 'int')], name='go')
    out.examined = {
        'client operations': n, 'assignments to arrays of a given type': m,
        'types given to arrays': types,
        'self-test: values cut off found of 2':
            len([1 for _ in cut_off(t)]),
        'self-test: narrow types found of 2':
            len(list(narrow_types(ast.parse(BAD_X04))))}
    return out


# ------------------------------------------------------- missing arguments
BAD_NONE = '''
class Box(object):
    def __init__(self, x=None):
        self._x = None
        self.set(x)
    def set(self, x):
        if x.ndim < 2:
            self._x = x
    def first(self):
        return self._x[0]
def go(a, r):
    u = Box()
    if r > 3:
        a = a + r
    if r is not None and r > 3:
        a = a + r
    return a
'''


def missing(r):
    """Uses of None as if it were a value: (event, text)."""
    for e in r.events:
        if e.kind == 'none' and e.guard is not FALSE:
            yield e, 'uses None as %s%s' % (
                'the owner of ' + e.name if e.name.startswith('attr') else
                'a sequence' if e.name == 'an item' else e.name,
                '' if e.guard is TRUE else ' when ' + show(e.guard, 4))


@rule('X01', 'missing values are not used')
def x01_none(sources):
    out = Outcome()
    n = 0
    seen = set()
    for c, r, why in each(sources):
        if r is None:
            out.undecided.append('%s: %s' % (c.name, why))
            continue
        n += 1
        out.functions.update(r.called)
        for e, how in missing(r):
            if e.src in seen:
                continue
            seen.add(e.src)
            out.findings.append(Finding(
                'missing values are not used', at(e.src),
                '%s(%s)' % (e.func, e.name),
                '%s %s (client "%s")' % (e.func, how, c.name)))
    from vsa.engine import analyse
    t = analyse(sources, BAD_NONE, [('a', 'arr1'), ('r', 'opt')], name='go')
    out.examined = {
        'client operations': n,
        'options that may be None': sum(
            1 for c in clients.C for k in kinds_of(c).values() if k == 'opt'),
        'self-test: uses found of 3': len([1 for _ in missing(t)])}
    return out
