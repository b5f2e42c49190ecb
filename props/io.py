from vsa.oblig import Ob

IMP = '''
from scipy import io as sio
from flowtracks.io import (FramesIterator, SingleFileIterator,
    collect_particles, collect_particles_mat, collect_particles_generic,
    trajectories_mat, trajectories_acc, iter_trajectories_ptvis,
    trajectories_ptvis, trajectories, infer_format, read_frame_data,
    save_trajectories, save_particles_table, save_frames_hdf,
    trajectories_table, load_trajectories)
'''
IO = 'flowtracks.io.'
READERS = dict((IO + n, k) for n, k in [
    ('trajectories_mat', 'list'), ('load_trajectories', 'tuple'),
    ('trajectories_acc', 'list'), ('iter_trajectories_ptvis', None),
    ('trajectories_ptvis', 'list'), ('infer_format', 'str')])

# --------------------------------------------------------------- R02
Ob('R02', 'format by name', 'fn:str', IMP + '''
def impl(fn):
    return infer_format(fn)
def spec(fn):
    if fn.endswith('mat'):
        return 'mat'
    if fn.endswith('/'):
        return 'npz'
    if 'ptv_is' in fn or fn.endswith('.txt'):
        return 'ptvis'
    if 'xuap' in fn:
        return 'xuap'
    if fn.endswith('h5') or fn.endswith('hdf'):
        return 'hdf'
    return 'acc'
''')
for fmt, call, filt in [
        ('mat', 'trajectories_mat(fn)', True),
        ('npz', 'load_trajectories(fn, a, b)[0]', True),
        ('acc', 'trajectories_acc(fn, a, b)', True),
        ('ptvis', 'trajectories_ptvis(fn, a, b, r, False, m)', False),
        ('xuap', 'trajectories_ptvis(fn, a, b, r, True, m)', True)]:
    Ob('R02', 'dispatch of %s' % fmt, 'fn:str a:int b:int r:float m:int',
       IMP + '''
def impl(fn, a, b, r, m):
    return trajectories(fn, a, b, r, %r, m)
def spec(fn, a, b, r, m):
    trs = %s
    return %s
''' % (fmt, call, '[t for t in trs if len(t) >= m]' if filt else 'trs'),
       opaque=READERS)
    if filt:
        Ob('R02', 'shortest length by default, %s' % fmt,
           'fn:str a:int b:int r:float', IMP + '''
def impl(fn, a, b, r):
    return trajectories(fn, a, b, r, %r)
def spec(fn, a, b, r):
    trs = %s
    return [t for t in trs if len(t) >= 2]
''' % (fmt, call.replace(', m)', ', None)')), opaque=READERS)
        Ob('R02', 'an iterator has the same trajectories, %s' % fmt,
           'fn:str a:int b:int r:float m:opt', IMP + '''
def impl(fn, a, b, r, m):
    return list(trajectories(fn, a, b, r, %r, m, True))
def spec(fn, a, b, r, m):
    return trajectories(fn, a, b, r, %r, m, False)
''' % (fmt, fmt), opaque=READERS)
Ob('R02', 'iterator over ptv_is files', 'fn:str a:int b:int r:float m:int',
   IMP + '''
def impl(fn, a, b, r, m):
    return trajectories(fn, a, b, r, 'ptvis', m, iter_allowed=True)
def spec(fn, a, b, r, m):
    return iter_trajectories_ptvis(fn, a, b, r, False, m)
''', opaque=READERS)
Ob('R02', 'the list of ptv_is trajectories is that of the iterator',
   'fn:str a:int b:int r:float m:int x:bool', IMP + '''
def impl(fn, a, b, r, m, x):
    return trajectories_ptvis(fn, a, b, r, x, m)
def spec(fn, a, b, r, m, x):
    return list(iter_trajectories_ptvis(fn, a, b, r, x, m))
''', opaque={IO + 'iter_trajectories_ptvis': 'list'})
Ob('R02', 'the format is inferred when not given',
   'fn:str a:int b:int r:float m:int', IMP + '''
def impl(fn, a, b, r, m):
    return trajectories(fn, a, b, r, None, m)
def spec(fn, a, b, r, m):
    return trajectories(fn, a, b, r, infer_format(fn), m)
''', opaque=READERS)

HDF = '''
def hdf(fn, a, b, m):
    f = tables.open_file(fn)
    tb = f.get_node('/particles')
    try:
        ids = f.get_node('/bounds').col('trajid')
    except Exception:
        ids = np.unique(tb.col('trajid'))
    out = []
    for trid in ids:
        rows = tb.read_where(
            '(trajid == trid) & (time >= %d) & (time <= %d)' % (a, b))
        d = {n: rows[n] for n in rows.dtype.fields if n != 'trajid'}
        d['trajid'] = trid
        t = Trajectory(**d)
        if len(t) > 0 and len(t) >= m:
            out.append(t)
    return out
'''
# --------------------------------------------------------------- R01
Ob('R01', 'HDF: the last frame is included', 'fn:str a:int b:int r:float',
   IMP + HDF + '''
def impl(fn, a, b, r):
    return trajectories(fn, a, b, r, 'hdf')
def spec(fn, a, b, r):
    return hdf(fn, a, b, 2)
''')
Ob('R01', 'HDF: shortest length', 'fn:str a:int b:int r:float m:int',
   IMP + HDF + '''
def impl(fn, a, b, r, m):
    return trajectories(fn, a, b, r, 'hdf', m)
def spec(fn, a, b, r, m):
    return hdf(fn, a, b, m)
''')
Ob('R01', 'HDF: iterator', 'fn:str a:int b:int r:float m:int',
   IMP + HDF + '''
def impl(fn, a, b, r, m):
    return list(trajectories(fn, a, b, r, 'hdf', m, iter_allowed=True))
def spec(fn, a, b, r, m):
    return hdf(fn, a, b, m)
''')
Ob('R01', 'trajectories_table', 'fn:str a:opt b:opt', IMP + '''
def impl(fn, a, b):
    return trajectories_table(fn, a, b)
def spec(fn, a, b):
    tb = tables.open_file(fn, mode='r').get_node('/particles')
    out = []
    q = '(trajid == trid)'
    if a is not None:
        q = q + ' & (time >= %d)' % a
    if b is not None:
        q = q + ' & (time <= %d)' % b
    for trid in np.unique(tb.col('trajid')):
        rows = tb.read_where(q)
        d = {n: rows[n] for n in rows.dtype.fields if n != 'trajid'}
        d['trajid'] = trid
        out.append(Trajectory(**d))
    return out
''')
ACC = '''
from flowtracks.io import frame_file_pattern
def acc_files(fn, a, b):
    d, base = os.path.split(os.path.expanduser(fn))
    pat = frame_file_pattern(base)
    out = []
    for name in os.listdir(d or '.'):
        m = pat.match(name)
        if m is None:
            continue
        n = int(m.group(1))
        if (a is None or n >= a) and (b is None or n <= b):
            out.append((n, name))
    return sorted(out)
'''
Ob('R01', 'trajAcc: frames first to last', 'fn:str a:opt b:opt',
   IMP + ACC + '''
def impl(fn, a, b):
    return trajectories_acc(fn, a, b)
def spec(fn, a, b):
    d = os.path.split(os.path.expanduser(fn))[0]
    out = []
    for n, name in acc_files(fn, a, b):
        tab = np.loadtxt(os.path.join(d, name),
            usecols=(0, 1, 2, 3, 4, 5, 6, 7, 8, 33), ndmin=2)
        st = np.nonzero(tab[:, -1] == 0)[0]
        en = np.r_[st[1:], tab.shape[0]]
        for s, e in zip(st, en):
            out.append(Trajectory(tab[s:e, 0:3], tab[s:e, 3:6],
                tab[s:e, -1] + n, len(out), accel=tab[s:e, 6:9]))
    return out
''')
Ob('R01', 'ptv_is: frames first to last, in order',
   'fn:str a:opt b:opt fmt: sk:int', IMP + ACC + '''
def impl(fn, a, b, fmt, sk):
    return [n for n, t in FramesIterator(fn, fmt, sk, a, b)]
def spec(fn, a, b, fmt, sk):
    d, base = os.path.split(fn)
    pat = frame_file_pattern(base)
    out = []
    for name in os.listdir(d or '.'):
        m = pat.match(name)
        if m is None:
            continue
        n = int(m.group(1))
        if (a is None or n >= a) and (b is None or n <= b):
            out.append(n)
    return sorted(out)
''')
Ob('R01', 'npz: points first to last', 'd:str a:int b:int', IMP + '''
def impl(d, a, b):
    return load_trajectories(d, a, b)[0]
def spec(d, a, b):
    d = os.path.expanduser(d)
    out = []
    for name in sorted(os.listdir(d)):
        if not name.endswith('.npz'):
            continue
        z = np.load(os.path.join(d, name))
        i = int(name.split('.')[0][5:])
        kw = {k[5:]: z[k] for k in z.files if k.startswith('traj:')}
        ok = np.ones(kw['time'].shape, dtype=bool)
        ok[kw['time'] < a] = False
        ok[kw['time'] > b] = False
        if ok.sum() < 1:
            continue
        for k in kw.keys():
            kw[k] = kw[k][ok]
        kw['trajid'] = i
        out.append(Trajectory(**kw))
    return out
''')

# --------------------------------------------------------------- R03
Ob('R03', 'Matlab files: millimetres to metres', 'fn:str', IMP + '''
def impl(fn):
    return trajectories_mat(fn)
def spec(fn):
    data = sio.loadmat(os.path.expanduser(fn))
    name = [s for s in data.keys()
            if not s.startswith('__') and s != 'directory'][0]
    out = []
    for tr in data[name][:,0]:
        pos = np.hstack((tr['xf'], tr['yf'], tr['zf'])) / 1000.
        vel = np.hstack((tr['uf'], tr['vf'], tr['wf'])) / 1000.
        acc = np.hstack((tr['axf'], tr['ayf'], tr['azf'])) / 1000.
        out.append(Trajectory(pos, vel, tr['t'].ravel(),
            tr['trajid'][0,0], accel=acc))
    return out
''')
PTV = '''
def link_fmt(xuap):
    if xuap:
        return np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8'),
            ('pos_int', '3f8'), ('vel', '3f8'), ('acc', '3f8')])
    return np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8')])

def start(fn, xuap, a, b):
    fmt = link_fmt(xuap)
    fn = os.path.expanduser(fn)
    if re.search(r'%\\d*?d', fn) is not None:
        return FramesIterator(fn, fmt, 0 if xuap else 1, a, b)
    return SingleFileIterator(fn, fmt)
'''
LINK = PTV + '''
def link(fn, a, b, r, xuap, m):
    base = 1 if xuap else 0
    if m is None:
        m = 2
    it = start(fn, xuap, a, b)
    try:
        num, tab = next(it)
    except StopIteration:
        return
    pos = tab['pos'] if xuap else tab['pos'] / 1000.
    vel = tab['vel'] if xuap else np.zeros_like(pos)
    ntr = tab.shape[0]
    ids = np.arange(ntr)
    tbl = np.hstack((pos, vel, np.ones((ntr, 1)) * num, ids[:, None]))
    past = [tbl]
    born = {}
    for i in ids:
        born[i] = 0
    if m <= 1:
        for row in tbl[tab['next'] - base == -2]:
            yield Trajectory(row[None, :3], row[None, 3:6], row[None, 6],
                             int(row[7]), accel=np.zeros((1, 3)))
    data = {}
    past0 = 0
    for k, (num, tab) in enumerate(it):
        if tab.ndim == 0:
            past.append(None)
            continue
        old = tab['prev'] - base > -1
        tr = np.empty(tab['prev'].shape)
        hist = len(past) > 0 and past[-1] is not None
        if hist:
            pix = tab['prev'][old] - base
            tr[old] = past[-1][:, -1][pix]
        new = np.sum(~old)
        tr[~old] = np.arange(ntr, ntr + new)
        for i in tr[~old]:
            born[i] = k + 1
        ntr += new
        pos = tab['pos'] if xuap else tab['pos'] / 1000.
        vel = tab['vel'] if xuap else np.zeros_like(pos)
        tbl = np.hstack((pos, vel, np.ones((tab.shape[0], 1)) * num,
                         tr[:, None]))
        if not xuap and hist:
            past[-1][pix, 3:6] = (pos[old] - past[-1][pix, :3]) * r
        past.append(tbl)
        end = tab['next'] - base == -2
        if not end.any():
            continue
        eid = np.atleast_1d(tbl[end, -1].astype(np.int64))
        est = np.r_[[born[i] for i in eid]]
        n = k - est + 2
        ok = n >= m
        n = n[ok]
        eid = eid[ok]
        est = est[ok]
        for i, l in zip(eid, n):
            data[i] = np.empty((l, past[-1].shape[-1]))
        for j, f in enumerate(past):
            if f is None:
                continue
            for i in eid[est <= j + past0]:
                data[i][j + past0 - born[i]] = f[f[:, -1] == i][0]
        alive = tbl[~end, -1]
        if len(alive) == 0:
            first = k
        else:
            first = min([born[i] for i in alive])
        past = past[first - past0:]
        past0 = first
        for i in eid:
            d = data[i]
            t = Trajectory(d[:, :3], d[:, 3:6], d[:, 6], int(d[0, 7]))
            acc = np.empty_like(t.velocity())
            acc[:-3:-1, :] = 0.
            acc[:-2] = (t.velocity()[1:-1] - t.velocity()[:-2]) * r
            t.create_property('accel', acc)
            del data[i]
            del born[i]
            yield t
'''
for _x in ('False', 'True'):
    Ob('R04', 'linking of %s files' % ('xuap' if _x == 'True' else 'ptv_is'),
       'fn:str a:opt b:opt r:float m:opt', IMP + LINK + '''
def impl(fn, a, b, r, m):
    return list(iter_trajectories_ptvis(fn, a, b, r, %s, m))
def spec(fn, a, b, r, m):
    return list(link(fn, a, b, r, %s, m))
''' % (_x, _x), opaque={IO + 'FramesIterator': None,
                        IO + 'SingleFileIterator': None})
Ob('R02', 'linked trajectories of at least the shortest length',
   'fn:str a:opt b:opt r:float m:opt', IMP + LINK + '''
def impl(fn, a, b, r, m):
    return list(iter_trajectories_ptvis(fn, a, b, r, False, m))
def spec(fn, a, b, r, m):
    return list(link(fn, a, b, r, False, m))
''', opaque={IO + 'FramesIterator': None,
            IO + 'SingleFileIterator': None})

Ob('R04', 'frames of ptv_is files are read completely',
   'fn:str a:opt b:opt fmt: sk:int', IMP + ACC + '''
def impl(fn, a, b, fmt, sk):
    return list(FramesIterator(fn, fmt, sk, a, b))
def spec(fn, a, b, fmt, sk):
    d, base = os.path.split(fn)
    pat = frame_file_pattern(base)
    nums = []
    for name in os.listdir(d or '.'):
        m = pat.match(name)
        if m is None:
            continue
        n = int(m.group(1))
        if (a is None or n >= a) and (b is None or n <= b):
            nums.append(n)
    cols = sum([np.prod(fmt[f].shape, dtype=int) for f in fmt.names])
    link = lambda text: int(float(text))
    return [(n, np.atleast_1d(np.loadtxt(fn % n, dtype=fmt, skiprows=sk,
                usecols=range(cols), converters={0: link, 1: link})))
            for n in sorted(nums)]
''')
# --------------------------------------------------------------- R07
Ob('R07', 'particles of a frame, from trajAcc files', 'fn:str f:int',
   IMP + '''
from flowtracks.trajectory import mark_unique_rows
def impl(fn, f):
    return collect_particles(fn, f)
def spec(fn, f):
    fn = os.path.expanduser(fn)
    got = []
    cur = f
    while os.path.exists(fn % cur):
        tab = np.loadtxt(fn % cur, usecols=(0, 1, 2, 3, 4, 5, 33), ndmin=2)
        got.append(tab[tab[:, -1] == f - cur])
        cur -= 1
    rows = np.vstack(got)
    return rows[mark_unique_rows(rows)]
''')
Ob('R07', 'particles of two frames, from trajAcc files', 'fn:str f:int',
   IMP + '''
from flowtracks.trajectory import mark_unique_rows
def impl(fn, f):
    return collect_particles(fn, f, True)
def spec(fn, f):
    fn = os.path.expanduser(fn)
    got = []
    cur = f
    while os.path.exists(fn % cur):
        tab = np.loadtxt(fn % cur, usecols=(0, 1, 2, 3, 4, 5, 33), ndmin=2)
        age = tab[:, -1]
        segs = np.nonzero((age == f - cur) &
                          (np.roll(age, -1) == f - cur + 1))[0]
        got.append(np.concatenate((tab[segs][None, ...],
                                   tab[segs + 1][None, ...]), axis=0))
        cur -= 1
    rows = np.concatenate(got, axis=1)
    return rows[:, mark_unique_rows(rows[0])]
''')
Ob('R07', 'particles of a frame, from trajectories', 'trs:[traj] f:int',
   IMP + '''
from flowtracks.trajectory import mark_unique_rows
def impl(trs, f):
    return collect_particles_generic(trs, f)
def spec(trs, f):
    got = []
    for t in trs:
        at = np.nonzero(t.time() == f)[0]
        if len(at) == 0:
            continue
        got.append(t[at[0]])
    if len(got) == 0:
        return np.empty((0, 8))
    rows = np.vstack(got)
    return rows[mark_unique_rows(rows)]
''')
Ob('R07', 'particles of two frames, from trajectories', 'trs:[traj] f:int',
   IMP + '''
from flowtracks.trajectory import mark_unique_rows
def impl(trs, f):
    return collect_particles_generic(trs, f, path_seg=True)
def spec(trs, f):
    got = []
    for t in trs:
        at = np.nonzero((t.time()[:-1] == f) & (t.time()[1:] == f + 1))[0]
        if len(at) == 0:
            continue
        got.append(t[at[0]:at[0] + 2].reshape(2, 1, -1))
    if len(got) == 0:
        return np.empty((2, 0, 8))
    rows = np.concatenate(got, axis=1)
    return rows[:, mark_unique_rows(rows[0])]
''')
Ob('R07', 'particles of a frame, from Matlab files', 'fn:str f:int seg:bool',
   IMP + '''
def impl(fn, f, seg):
    return collect_particles_mat(fn, f, seg)
def spec(fn, f, seg):
    return collect_particles_generic(trajectories_mat(fn), f, seg)
''', opaque={IO + 'trajectories_mat': 'list',
             IO + 'collect_particles_generic': None})
Ob('R07', 'scene configuration: particle and frames', 'fn:str', IMP + '''
from flowtracks.particle import Particle
from flowtracks.trajectory import (Frame, take_snapshot,
                                   trajectories_in_frame)
def impl(fn):
    p, r, f1, f2 = read_frame_data(fn)
    return (p.diam, p.density, r, f1.tracers, f1.particles, f2.tracers,
            f2.particles)
def spec(fn):
    c = ConfigParser()
    c.read(fn)
    n = c.getint('Scene', 'frame')
    r = c.getfloat('Scene', 'frame rate')
    trs = trajectories(c.get('Scene', 'tracer_file'), n, n + 2, r, None)
    prs = trajectories(c.get('Scene', 'part_file'), n, n + 2, r, None)
    ts = [trs[i] for i in trajectories_in_frame(trs, n, segs=True)]
    ps = [prs[i] for i in trajectories_in_frame(prs, n, segs=True)]
    return (c.getfloat('Particle', 'diameter'),
            c.getfloat('Particle', 'density'), r,
            take_snapshot(ts, n, trs[0].schema()),
            take_snapshot(ps, n, prs[0].schema()),
            take_snapshot(ts, n + 1, trs[0].schema()),
            take_snapshot(ps, n + 1, prs[0].schema()))
''', opaque={IO + 'trajectories': 'list',
             'flowtracks.trajectory.take_snapshot': None,
             'flowtracks.trajectory.trajectories_in_frame': 'list'})
# --------------------------------------------------------------- W03
Ob('W03', 'npz: all properties of every trajectory are written',
   'd:str trs:[traj] adds:dict', IMP + '''
def impl(d, trs, adds):
    save_trajectories(d, trs, adds)
def spec(d, trs, adds):
    if not os.path.exists(d):
        os.makedirs(d)
    for t in trs:
        data = {'traj:' + k: v for k, v in t.as_dict().items()}
        for k, v in adds.items():
            data[k] = v[t.trajid()]
        np.savez(os.path.join(d, 'traj_%d' % t.trajid()), **data)
''', events=[('call', 'numpy.savez'), ('call', 'os.makedirs')])
Ob('W03', 'npz: added arrays are read by trajectory', 'd:str', IMP + '''
def impl(d):
    return load_trajectories(d)
def spec(d):
    d = os.path.expanduser(d)
    out = []
    adds = {}
    for name in sorted(os.listdir(d)):
        if not name.endswith('.npz'):
            continue
        z = np.load(os.path.join(d, name))
        i = int(name.split('.')[0][5:])
        kw = {}
        for k in z.files:
            if k.startswith('traj:'):
                kw[k[5:]] = z[k]
            else:
                adds.setdefault(k, {})
                adds[k][i] = z[k]
        kw['trajid'] = i
        out.append(Trajectory(**kw))
    return out, adds
''')
# --------------------------------------------------------------- W01
W01 = IMP + '''
def spec_table(fn, trs, trim):
    out = tables.open_file(fn, mode='w')
    bounds = out.create_table('/', 'bounds', np.dtype(
        [('trajid', int), ('first', int), ('last', int)]))
    tab = None
    cut = 0 if trim is None else 2 * trim
    for t in trs:
        if len(t) - cut <= 0:
            continue
        if tab is None:
            dt = np.dtype([('trajid', int)] + [
                (k,) + d for k, d in t.ext_schema().items()])
            tab = out.create_table('/', 'particles', dt)
        arr = np.empty(len(t) - cut, dtype=dt)
        arr['trajid'] = t.trajid()
        for k, v in t.as_dict().items():
            arr[k] = v if trim is None else v[trim:len(t) - trim]
        tab.append(arr)
        bounds.append([(t.trajid(), arr['time'][0], arr['time'][-1])])
    tab.cols.trajid.create_index()
    tab.cols.time.create_index()
    bounds.cols.trajid.create_index()
    out.flush()
    out.close()
'''
HDFEV = [('call', 'create_table'), ('call', 'append'), ('call', 'tables.open_file'),
         ('call', 'create_index'), ('call', 'close'), ('call', 'flush'),
         ('setattr', None)]
for trim in ('None', 't'):
    Ob('W01', 'particle table, trim %s' % trim, 'fn:str trs:[traj] t:int',
       W01 + '''
def impl(fn, trs, t):
    save_particles_table(fn, trs, %s)
def spec(fn, trs, t):
    spec_table(fn, trs, %s)
''' % (trim, trim), events=HDFEV)

Ob('W02', 'frames are written with time, bounds and extents',
   'fn:str frames:[snap]', IMP + '''
def impl(fn, frames):
    save_frames_hdf(fn, frames)
def spec(fn, frames):
    out = tables.open_file(fn, mode='w')
    tab = None
    lo = np.full(3, np.inf)
    hi = np.full(3, -np.inf)
    seen = {}
    for f in frames:
        if len(f) <= 0:
            continue
        if tab is None:
            dt = np.dtype([('time', int)] + [
                (k,) + d for k, d in f.ext_schema().items()])
            tab = out.create_table('/', 'particles', dt)
        lo = np.min(np.vstack((lo, f.pos())), axis=0)
        hi = np.max(np.vstack((hi, f.pos())), axis=0)
        arr = np.empty(len(f), dtype=dt)
        arr['time'] = f.time()
        for k, v in f.as_dict().items():
            arr[k] = v
        tab.append(arr)
        for i in f.trajid():
            if i in seen:
                seen[i][1] = f.time()
            else:
                seen[i] = np.r_[f.time(), f.time()]
    tab._v_attrs.min_pos = lo
    tab._v_attrs.max_pos = hi
    tab.cols.trajid.create_index()
    tab.cols.time.create_index()
    bounds = out.create_table('/', 'bounds', np.dtype(
        [('trajid', int), ('first', int), ('last', int)]))
    for i, b in seen.items():
        bounds.append([(i, b[0], b[1])])
    bounds.cols.trajid.create_index()
    out.flush()
    out.close()
''', events=HDFEV)
# ---------------------------------------------------- names of frame files
Ob('R01', 'only names made from the template are frames', 'base:str', ACC +
   IMP + '''
def impl(base):
    return frame_file_pattern(base)
def spec(base):
    a, b = re.split(r'%\\d*d', base, maxsplit=1)
    return re.compile(re.escape(a) + r'(\\d+)' + re.escape(b) + '$')
''')
Ob('R04', 'frames of one file', 'fn:str fmt:', IMP + '''
from io import StringIO
class Frames(object):
    def __init__(self, fn, fmt):
        self.n = 0
        self.fmt = fmt
        self.f = open(fn, 'r')
    def __iter__(self):
        return self
    def __next__(self):
        lines = []
        end = True
        for line in self.f:
            end = False
            if re.match(r'^\\s*$', line):
                break
            lines.append(line)
        if end:
            raise StopIteration
        if len(lines) == 0:
            x = np.empty(0, dtype=self.fmt)
        else:
            x = np.atleast_1d(np.loadtxt(StringIO(''.join(lines)),
                dtype=self.fmt))
        self.n += 1
        return self.n - 1, x
def impl(fn, fmt):
    return list(SingleFileIterator(fn, fmt))
def spec(fn, fmt):
    return list(Frames(fn, fmt))
''')
for a, b in (('a', 'None'), ('None', 'b')):
    Ob('R01', 'npz: a limit on one side, %s' % (a if b == 'None' else b),
       'd:str a:int b:int', IMP + '''
def impl(d, a, b):
    return load_trajectories(d, %s, %s)[0]
def spec(d, a, b):
    d = os.path.expanduser(d)
    out = []
    for name in sorted(os.listdir(d)):
        if not name.endswith('.npz'):
            continue
        z = np.load(os.path.join(d, name))
        i = int(name.split('.')[0][5:])
        kw = {k[5:]: z[k] for k in z.files if k.startswith('traj:')}
        ok = np.ones(kw['time'].shape, dtype=bool)
        ok[%s] = False
        if ok.sum() < 1:
            continue
        for k in kw.keys():
            kw[k] = kw[k][ok]
        kw['trajid'] = i
        out.append(Trajectory(**kw))
    return out
''' % (a, b, "kw['time'] < a" if b == 'None' else "kw['time'] > b"))
Ob('W03', 'npz: arrays without an owner', 'd:str trs:[traj] x:arr1 y:arr1',
   IMP + '''
def impl(d, trs, x, y):
    save_trajectories(d, trs, {}, rate=x, edges=y)
def spec(d, trs, x, y):
    if not os.path.exists(d):
        os.makedirs(d)
    for t in trs:
        np.savez(os.path.join(d, 'traj_%d' % t.trajid()),
            **{'traj:' + k: v for k, v in t.as_dict().items()})
    np.save(os.path.join(d, 'rate'), x)
    np.save(os.path.join(d, 'edges'), y)
''', events=[('call', 'numpy.savez'), ('call', 'numpy.save')])
