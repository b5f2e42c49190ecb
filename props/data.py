from vsa.oblig import Ob

IMP = '''
from flowtracks.trajectory import (ParticleSet, mark_unique_rows,
    trajectories_in_frame, take_snapshot, Frame)
'''
C = dict(concrete=True)

# --------------------------------------------------------------- D01
Ob('D01', 'getters give what the object was made of',
   'p:arr2 v:arr2 t:arr1 i:int x:arr2', IMP + '''
def impl(p, v, t, i, x):
    tr = Trajectory(p, v, t, i, accel=x)
    return tr.pos(), tr.velocity(), tr.time(), tr.trajid(), tr.accel()
def spec(p, v, t, i, x):
    return p, v, t, i, x
''', **C)
Ob('D01', 'the same of a snapshot', 'p:arr2 v:arr2 t:int i:arr1 x:arr2',
   IMP + '''
def impl(p, v, t, i, x):
    tr = ParticleSnapshot(p, v, t, i, accel=x)
    return tr.pos(), tr.velocity(), tr.time(), tr.trajid(), tr.accel()
def spec(p, v, t, i, x):
    return p, v, t, i, x
''', **C)
Ob('D01', 'a selector', 'p:arr2 v:arr2 t:arr1 i:int x:arr2 s:int', IMP + '''
def impl(p, v, t, i, x, s):
    tr = Trajectory(p, v, t, i, accel=x)
    return tr.pos(s), tr.velocity(s), tr.time(s), tr.accel(s), tr.pos(0), \\
        tr.pos(selector=s)
def spec(p, v, t, i, x, s):
    return p[s], v[s], t[s], x[s], p[0], p[s]
''', **C)
Ob('D01', 'a setter replaces one property only',
   'p:arr2 v:arr2 t:arr1 i:int x:arr2 n:arr2', IMP + '''
def impl(p, v, t, i, x, n):
    tr = Trajectory(p, v, t, i, accel=x)
    tr.set_velocity(n)
    return tr.pos(), tr.velocity(), tr.time(), tr.accel(), \\
        tr.as_dict()['velocity'], tr.velocity(0)
def spec(p, v, t, i, x, n):
    return p, n, t, x, n, n[0]
''', **C)
Ob('D01', 'a setter with a selector changes the selected points',
   'p:arr2 v:arr2 t:arr1 i:int n:arr2 s:arr1', IMP + '''
def impl(p, v, t, i, n, s):
    tr = Trajectory(p, v, t, i)
    tr.set_pos(n, s)
    return tr.pos(), tr.velocity(), tr.time()
def spec(p, v, t, i, n, s):
    p[s] = n
    return p, v, t
''', **C)
Ob('D01', 'a new property', 'p:arr2 v:arr2 t:arr1 i:int x:arr2 s:int',
   IMP + '''
def impl(p, v, t, i, x, s):
    tr = Trajectory(p, v, t, i)
    a = tr.has_property('accel')
    tr.create_property('accel', x)
    return a, tr.has_property('accel'), tr.has_property('pos'), tr.accel(), \\
        tr.accel(s), tr.as_dict()['accel'], tr.pos()
def spec(p, v, t, i, x, s):
    return False, True, True, x, x[s], x, p
''', **C)
Ob('D01', 'a property made again has the new values',
   'p:arr2 v:arr2 t:arr1 i:int x:arr2 y:arr2 s:int', IMP + '''
def impl(p, v, t, i, x, y, s):
    tr = Trajectory(p, v, t, i, accel=x)
    tr.create_property('accel', y)
    return tr.has_property('accel'), tr.accel(), tr.accel(s), \\
        tr.as_dict()['accel'], tr.pos()
def spec(p, v, t, i, x, y, s):
    return True, y, y[s], y, p
''', **C)
Ob('D01', 'a property of a snapshot made again has the new values',
   'p:arr2 v:arr2 t:int i:arr1 x:arr2 y:arr2 s:int', IMP + '''
def impl(p, v, t, i, x, y, s):
    sn = ParticleSnapshot(p, v, t, i, accel=x)
    sn.create_property('accel', y)
    return sn.has_property('accel'), sn.accel(), sn.accel(s), \\
        sn.as_dict()['accel'], sn.pos()
def spec(p, v, t, i, x, y, s):
    return True, y, y[s], y, p
''', **C)
Ob('D01', 'properties of one object do not show up in another',
   'p:arr2 v:arr2 t:arr1 i:int x:arr2', IMP + '''
def impl(p, v, t, i, x):
    a = Trajectory(p, v, t, i)
    b = Trajectory(p, v, t, i)
    a.create_property('accel', x)
    a.set_pos(x)
    return b.has_property('accel'), b.pos(), a.pos(), \\
        sorted(b.as_dict().keys())
def spec(p, v, t, i, x):
    return False, p, x, ['pos', 'time', 'velocity']
''', **C)
Ob('D01', 'as_dict of a trajectory', 'p:arr2 v:arr2 t:arr1 i:int x:arr2',
   IMP + '''
def impl(p, v, t, i, x):
    return Trajectory(p, v, t, i, accel=x).as_dict()
def spec(p, v, t, i, x):
    return {'pos': p, 'velocity': v, 'time': t, 'accel': x}
''', **C)
Ob('D01', 'as_dict of a snapshot', 'p:arr2 v:arr2 t:int i:arr1 x:arr2',
   IMP + '''
def impl(p, v, t, i, x):
    return ParticleSnapshot(p, v, t, i, accel=x).as_dict()
def spec(p, v, t, i, x):
    return {'pos': p, 'velocity': v, 'trajid': i, 'accel': x}
''', **C)
Ob('D01', 'schema', 'p:arr2 v:arr2 t:arr1 i:int x:arr2', IMP + '''
def impl(p, v, t, i, x):
    return Trajectory(p, v, t, i, accel=x).schema()
def spec(p, v, t, i, x):
    return {'pos': p.shape[1:], 'velocity': v.shape[1:],
        'time': t.shape[1:], 'accel': x.shape[1:]}
''', **C)
Ob('D01', 'extended schema', 'p:arr2 v:arr2 t:arr1 i:int x:', IMP + '''
def impl(p, v, t, i, x):
    return Trajectory(p, v, t, i, accel=x).ext_schema()
def spec(p, v, t, i, x):
    def e(a):
        return (a.dtype.type, a.shape[-1] if a.ndim > 1 else ())
    return {'pos': e(p), 'velocity': e(v), 'time': e(t), 'accel': e(x)}
''', **C)
Ob('D01', 'length', 'p:arr2 v:arr2 t:arr1 i:int', IMP + '''
def impl(p, v, t, i):
    return len(Trajectory(p, v, t, i)), len(ParticleSnapshot(p, v, i, t))
def spec(p, v, t, i):
    return p.shape[0], p.shape[0]
''', **C)
Ob('D01', 'length after new positions', 'p:arr2 v:arr2 t:arr1 i:int n:arr2',
   IMP + '''
def impl(p, v, t, i, n):
    tr = Trajectory(p, v, t, i)
    tr.set_pos(n)
    return len(tr)
def spec(p, v, t, i, n):
    return n.shape[0]
''', **C)

Ob('D01', 'length asked before new positions and after',
   'p:arr2 v:arr2 t:arr1 i:int n:arr2', IMP + '''
def impl(p, v, t, i, n):
    tr = Trajectory(p, v, t, i)
    a = len(tr)
    tr.set_pos(n)
    return a, len(tr)
def spec(p, v, t, i, n):
    return p.shape[0], n.shape[0]
''', **C)

# --------------------------------------------------------------- D02
Ob('D02', 'rows of a trajectory', 'p:arr2 v:arr2 t:arr1 i:int s:', IMP + '''
def impl(p, v, t, i, s):
    return Trajectory(p, v, t, i)[s]
def spec(p, v, t, i, s):
    return np.hstack((p[s], v[s], t[s][..., None],
        np.ones(p[s].shape[:-1] + (1,)) * i))
''', **C)

# --------------------------------------------------------------- D03
Ob('D03', 'snapshot: values', 'trs:trajs f:int',  IMP + '''
def impl(trs, f):
    s = take_snapshot(trs, f, {'pos': (3,), 'velocity': (3,), 'time': ()})
    return (s.pos(), s.velocity(), s.trajid(), s.time()) \\
        if len(trs) > 0 else 0
def spec(trs, f):
    p = np.array([tr.pos(int(f - tr.time()[0])) for tr in trs])
    v = np.array([tr.velocity(int(f - tr.time()[0])) for tr in trs])
    i = np.array([tr.trajid() for tr in trs])
    return (p, v, i, f) if len(trs) > 0 else 0
''')
Ob('D03', 'snapshot: the time, whatever the schema', 'trs:trajs f:int sc:dict',  IMP + '''
def impl(trs, f, sc):
    s = take_snapshot(trs, f, sc)
    return s.time()
def spec(trs, f, sc):
    return f
''')
Ob('D03', 'snapshot of nothing', 'f:int',  IMP + '''
def impl(f):
    s = take_snapshot([], f, {'pos': (3,), 'velocity': (3,)})
    return s.time(), s.pos().shape, s.velocity().shape, len(s.trajid())
def spec(f):
    return f, (0, 3), (0, 3), 0
''')
Ob('D03', 'trajectories in a frame, times given',
   'trs:trajs f:int st:arr1 en:arr1', IMP + '''
def impl(trs, f, st, en):
    return trajectories_in_frame(trs, f, st, en)
def spec(trs, f, st, en):
    act = (f >= st) & (f <= en)
    nums = np.nonzero(act)[0]
    if len(nums) > 0:
        at = (f - st[act]).astype(np.int64)
        pos = np.array([trs[i].pos()[k] for i, k in zip(nums, at)])
        good = np.zeros(pos.shape[0], dtype=bool)
        good[mark_unique_rows(pos)] = True
        act[act] = good
        nums = np.nonzero(act)[0]
    return nums
''', opaque={'flowtracks.trajectory.mark_unique_rows': 'arr'})
Ob('D03', 'trajectories in a frame, also in the next one',
   'trs:trajs f:int st:arr1 en:arr1', IMP + '''
def impl(trs, f, st, en):
    return trajectories_in_frame(trs, f, st, en, segs=True)
def spec(trs, f, st, en):
    act = (f >= st) & (f + 1 <= en)
    nums = np.nonzero(act)[0]
    if len(nums) > 0:
        at = (f - st[act]).astype(np.int64)
        pos = np.array([trs[i].pos()[k] for i, k in zip(nums, at)])
        good = np.zeros(pos.shape[0], dtype=bool)
        good[mark_unique_rows(pos)] = True
        act[act] = good
        nums = np.nonzero(act)[0]
    return nums
''', opaque={'flowtracks.trajectory.mark_unique_rows': 'arr'})
Ob('D03', 'times of the trajectories are used when none are given',
   'trs:trajs f:int', IMP + '''
def impl(trs, f):
    return trajectories_in_frame(trs, f)
def spec(trs, f):
    st = np.array([tr.time()[0] for tr in trs])
    en = np.array([tr.time()[-1] for tr in trs])
    return trajectories_in_frame(trs, f, st, en)
''', opaque={'flowtracks.trajectory.mark_unique_rows': 'arr'})
Ob('D03', 'any true value asks for segments',
   'trs:trajs f:int st:arr1 en:arr1', IMP + '''
def impl(trs, f, st, en):
    return trajectories_in_frame(trs, f, st, en, 1)
def spec(trs, f, st, en):
    return trajectories_in_frame(trs, f, st, en, True)
''', opaque={'flowtracks.trajectory.mark_unique_rows': 'arr'})
Ob('D03', 'the same with segments', 'trs:trajs f:int', IMP + '''
def impl(trs, f):
    return trajectories_in_frame(trs, f, segs=True)
def spec(trs, f):
    st = np.array([tr.time()[0] for tr in trs])
    en = np.array([tr.time()[-1] for tr in trs])
    return trajectories_in_frame(trs, f, st, en, True)
''', opaque={'flowtracks.trajectory.mark_unique_rows': 'arr'})

# --------------------------------------------------------------- D04
Ob('D04', 'unique rows', 'rows:arr2', IMP + '''
def impl(rows):
    return mark_unique_rows(rows)
def spec(rows):
    order = np.lexsort(rows[:, :3].T)
    new = np.diff(rows[order, :3], axis=0).any(axis=1)
    u = np.r_[order[:1], order[1:][new]]
    u.sort()
    return u
''')

# --------------------------------------------------------------- S04, S05
Ob('S04', 'a short trajectory is not smoothed', 
   'p:arr2@t:arr1 v:arr2@t:arr1 t:arr1 i:int e:float k:int', IMP + '''
def impl(p, v, t, i, e, k):
    s = Trajectory(p, v, t, i).smoothed(e, k)
    return (s.pos(), s.velocity(), s.time(), s.trajid()) \
        if len(t) < k + 1 else 0
def spec(p, v, t, i, e, k):
    return (p, v, t, i) if len(t) < k + 1 else 0
''', **C)
Ob('S04', 'smoothing keeps time and identity',
   'p:arr2@t:arr1 v:arr2@t:arr1 t:arr1 i:int e:float k:int', IMP + '''
def impl(p, v, t, i, e, k):
    s = Trajectory(p, v, t, i).smoothed(e, k)
    return s.time(), s.trajid()
def spec(p, v, t, i, e, k):
    return t, i
''', **C)
PART = IMP + '''
from flowtracks.particle import Particle
'''
Ob('S05', 'volume and mass', 'd:float r:float', PART + '''
def impl(d, r):
    p = Particle(d, r)
    return p.volume(), p.mass(), p.diam, p.density
def spec(d, r):
    v = np.pi * d ** 3 / 6
    return v, r * v, d, r
''')
Ob('S05', 'changed properties', 'd:float r:float e:float', PART + '''
def impl(d, r, e):
    p = Particle(d, r)
    p.diam = e
    a = p.mass()
    return a, p.volume()
def spec(d, r, e):
    v = np.pi * e ** 3 / 6
    return r * v, v
''')
Ob('S04', 'positions and derivatives of the spline',
   'p:arr2@t:arr1 v:arr2@t:arr1 t:arr1 i:int e:float k:int', IMP + '''
import scipy.interpolate as si
def impl(p, v, t, i, e, k):
    if len(t) < k + 1:
        return 0
    s = Trajectory(p, v, t, i).smoothed(e, k)
    return s.pos(), s.velocity(), s.accel()
def spec(p, v, t, i, e, k):
    if len(t) < k + 1:
        return 0
    spl, u = si.splprep(list(p.T), k=k, s=(len(t) * e) ** 2)
    return (np.array(si.splev(u, spl)).T, np.array(si.splev(u, spl, der=1)).T,
        np.array(si.splev(u, spl, der=2)).T)
''', **C)
Ob('S04', 'the least length that is smoothed',
   'p:arr2@t:arr1 v:arr2@t:arr1 t:arr1 i:int e:float', IMP + '''
import scipy.interpolate as si
def impl(p, v, t, i, e):
    return Trajectory(p, v, t, i).smoothed(e, 3).pos()
def spec(p, v, t, i, e):
    if len(t) < 4:
        return p
    spl, u = si.splprep(list(p.T), k=3, s=(len(t) * e) ** 2)
    return np.array(si.splev(u, spl)).T
''', **C)
Ob('D01', 'only properties count as properties',
   'p:arr2 v:arr2 t:arr1 i:int x:arr2', IMP + '''
def impl(p, v, t, i, x):
    tr = Trajectory(p, v, t, i, accel=x)
    return [tr.has_property(n) for n in ('pos', 'velocity', 'time', 'accel',
        'trajid', 'set_pos', 'schema', '_pos', 'foo')]
def spec(p, v, t, i, x):
    return [True, True, True, True, False, False, False, False, False]
''', **C)
Ob('D01', 'the same of a snapshot, has_property',
   'p:arr2 v:arr2 t:int i:arr1 x:arr2', IMP + '''
def impl(p, v, t, i, x):
    s = ParticleSnapshot(p, v, t, i, accel=x)
    return [s.has_property(n) for n in ('pos', 'velocity', 'trajid', 'accel',
        'time', 'set_pos', 'as_dict', '_t')]
def spec(p, v, t, i, x):
    return [True, True, True, True, False, False, False, False]
''', **C)
for one, arg in (('first', 'start_times=st'), ('last', 'end_times=st')):
    Ob('D03', 'times of the trajectories are used when the %s ones are given '
       'alone' % one, 'trs:trajs f:int st:arr1', IMP + '''
def impl(trs, f, st):
    return trajectories_in_frame(trs, f, %s)
def spec(trs, f, st):
    st = np.array([tr.time()[0] for tr in trs])
    en = np.array([tr.time()[-1] for tr in trs])
    return trajectories_in_frame(trs, f, st, en)
''' % arg, opaque={'flowtracks.trajectory.mark_unique_rows': 'arr'})
Ob('D03', 'snapshot of nothing: shapes as in the schema', 'f:int', IMP + '''
def impl(f):
    s = take_snapshot([], f, {'pos': (3,), 'velocity': (3,), 'time': (),
        'accel': (3,), 'w': ()})
    return (s.time(), s.pos().shape, s.velocity().shape, s.accel().shape,
        s.w().shape, len(s.trajid()), len(s))
def spec(f):
    return f, (0, 3), (0, 3), (0, 3), (0,), 0, 0
''')
