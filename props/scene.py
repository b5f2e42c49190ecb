from vsa.oblig import Ob

IMP = '''
from flowtracks.scene import Scene, DualScene, read_dual_scene, \\
    gen_query_string
'''
# what a scene file is, for the specifications
TAB = '''
def table(fn):
    return tables.open_file(fn).get_node('/particles')

def ids(fn):
    f = tables.open_file(fn)
    try:
        return f.get_node('/bounds').col('trajid')
    except Exception:
        return np.unique(f.get_node('/particles').col('trajid'))

def frame_snap(tb, t):
    rows = tb.read_where('time == t')
    d = {n: rows[n] for n in rows.dtype.fields if n != 'time'}
    d['time'] = t
    return ParticleSnapshot(**d)

def bounds(tb, a, b):
    if a is None:
        a = int(tb.col('time').min())
    if b is None:
        b = int(tb.col('time').max()) + 1
    return a, b
'''

# --------------------------------------------------------------- H01
Ob('H01', 'the default range is that of the file', 'fn:str', IMP + TAB + '''
def impl(fn):
    return Scene(fn).frame_range()
def spec(fn):
    return bounds(table(fn), None, None)
''')
Ob('H01', 'a given range is kept', 'fn:str a:int b:int', IMP + TAB + '''
def impl(fn, a, b):
    return Scene(fn, (a, b)).frame_range()
def spec(fn, a, b):
    return a, b
''')
Ob('H01', 'a range may be open on either side', 'fn:str a:opt b:opt',
   IMP + TAB + '''
def impl(fn, a, b):
    s = Scene(fn)
    s.set_frame_range((a, b))
    return s.frame_range()
def spec(fn, a, b):
    return bounds(table(fn), a, b)
''')
Ob('H01', 'None removes the range', 'fn:str a:int b:int', IMP + TAB + '''
def impl(fn, a, b):
    s = Scene(fn, (a, b))
    s.set_frame_range(None)
    return s.frame_range(), s.collect(['pos', 'velocity']), \\
        [f.time() for f in s.iter_frames()]
def spec(fn, a, b):
    tb = table(fn)
    c, d = bounds(tb, None, None)
    return (c, d), [tb.col('pos'), tb.col('velocity')], \\
        [t for t in range(c, d)]
''')
Ob('H01', 'iter_frames gives first <= t < last', 'fn:str a:int b:int',
   IMP + TAB + '''
def impl(fn, a, b):
    return list(Scene(fn, (a, b)).iter_frames())
def spec(fn, a, b):
    tb = table(fn)
    return [frame_snap(tb, t) for t in range(a, b)]
''')
Ob('H01', 'iter_frames without a range', 'fn:str', IMP + TAB + '''
def impl(fn):
    return [fr.time() for fr in Scene(fn).iter_frames()]
def spec(fn):
    a, b = bounds(table(fn), None, None)
    return [t for t in range(a, b)]
''')
Ob('H01', 'iter_trajectories only has points of the range',
   'fn:str a:int b:int', IMP + TAB + '''
def impl(fn, a, b):
    return list(Scene(fn, (a, b)).iter_trajectories())
def spec(fn, a, b):
    tb = table(fn)
    out = []
    for trid in ids(fn):
        rows = tb.read_where(
            '(trajid == trid) & (time >= %d) & (time < %d)' % (a, b))
        d = {n: rows[n] for n in rows.dtype.fields if n != 'trajid'}
        d['trajid'] = trid
        out.append(Trajectory(**d))
    return out
''')
Ob('H01', 'trajectory_by_id only has points of the range',
   'fn:str a:opt b:opt i:int', IMP + TAB + '''
def impl(fn, a, b, i):
    return Scene(fn, (a, b)).trajectory_by_id(i)
def spec(fn, a, b, i):
    tb = table(fn)
    q = '(trajid == i)'
    if a is not None:
        q = q + ' & (time >= %d)' % a
    if b is not None:
        q = q + ' & (time < %d)' % b
    rows = tb.read_where(q)
    d = {n: rows[n] for n in rows.dtype.fields if n != 'trajid'}
    d['trajid'] = i
    return Trajectory(**d)
''')
Ob('H01', 'collect only has points of the range', 'fn:str a:opt b:opt',
   IMP + TAB + '''
def impl(fn, a, b):
    return Scene(fn, (a, b)).collect(['pos', 'velocity'])
def spec(fn, a, b):
    tb = table(fn)
    if a is None and b is None:
        return [tb.col('pos'), tb.col('velocity')]
    q = ''
    if a is not None:
        q = '(time >= %d)' % a
    if b is not None:
        q = q + (' & ' if q else '') + '(time < %d)' % b
    rows = tb.read_where(q)
    return [rows['pos'], rows['velocity']]
''')
Ob('H01', 'a range may be changed', 'fn:str a:int b:int c:int d:int',
   IMP + TAB + '''
def impl(fn, a, b, c, d):
    s = Scene(fn, (a, b))
    s.set_frame_range((c, d))
    return s.frame_range(), s.collect(['pos'])[0], list(s.iter_frames())
def spec(fn, a, b, c, d):
    tb = table(fn)
    return (c, d), tb.read_where('(time >= %d) & (time < %d)' % (c, d),
        field='pos'), [frame_snap(tb, t) for t in range(c, d)]
''')
Ob('H01', 'frame_by_time', 'fn:str t:int', IMP + TAB + '''
def impl(fn, t):
    return Scene(fn).frame_by_time(t)
def spec(fn, t):
    return frame_snap(table(fn), t)
''')
Ob('H01', 'frame_by_time, a range set', 'fn:str a:opt b:opt t:int',
   IMP + TAB + '''
def impl(fn, a, b, t):
    s = Scene(fn)
    f = s.frame_by_time(t)
    s.set_frame_range((a, b))
    return f, s.frame_by_time(t), Scene(fn, (a, b)).frame_by_time(t)
def spec(fn, a, b, t):
    tb = table(fn)
    return frame_snap(tb, t), frame_snap(tb, t), frame_snap(tb, t)
''')

# --------------------------------------------------------------- H02
Ob('H02', 'gen_query_string: a plain range', 'k:str lo:float hi:float',
   IMP + TAB + '''
def impl(fn, k, lo, hi):
    return table(fn).read_where(gen_query_string('xx', (lo, hi, False)))
def spec(fn, k, lo, hi):
    return table(fn).read_where('(xx >= %.17g) & (xx < %.17g)' % (lo, hi))
'''.replace('fn, ', '').replace('table(fn)', "table('x')"))
Ob('H02', 'gen_query_string: an inverted range', 'lo:float hi:float',
   IMP + TAB + '''
def impl(lo, hi):
    return table('x').read_where(gen_query_string('xx', (lo, hi, True)))
def spec(lo, hi):
    return table('x').read_where('(xx < %.17g) | (xx >= %.17g)' % (lo, hi))
''')
Ob('H02', 'collect: all conditions, in the order of the keys',
   'fn:str a:int b:int lo:float hi:float lo2:float hi2:float', IMP + TAB + '''
def impl(fn, a, b, lo, hi, lo2, hi2):
    return Scene(fn, (a, b)).collect(['pos', 'velocity', 'time'],
        {'xx': (lo, hi, False), 'yy': (lo2, hi2, True)})
def spec(fn, a, b, lo, hi, lo2, hi2):
    tb = table(fn)
    rows = tb.read_where(
        '(time >= %d) & (time < %d) & ((xx >= %.17g) & (xx < %.17g)) & '
        '((yy < %.17g) | (yy >= %.17g))' % (a, b, lo, hi, lo2, hi2))
    return [rows['pos'], rows['velocity'], rows['time']]
''')
Ob('H02', 'collect: one key with a condition, no range',
   'fn:str lo:float hi:float', IMP + TAB + '''
def impl(fn, lo, hi):
    return Scene(fn).collect(['pos'], {'xx': (lo, hi, True)})
def spec(fn, lo, hi):
    return [table(fn).read_where('(xx < %.17g) | (xx >= %.17g)' % (lo, hi),
        field='pos')]
''')
Ob('H02', 'collect: several keys with a condition, no range',
   'fn:str lo:float hi:float', IMP + TAB + '''
def impl(fn, lo, hi):
    return Scene(fn).collect(['velocity', 'pos'], {'xx': (lo, hi, False)})
def spec(fn, lo, hi):
    rows = table(fn).read_where('(xx >= %.17g) & (xx < %.17g)' % (lo, hi))
    return [rows['velocity'], rows['pos']]
''')
Ob('H02', 'collect: one key in the range', 'fn:str a:int b:int',
   IMP + TAB + '''
def impl(fn, a, b):
    return Scene(fn, (a, b)).collect(['accel'])
def spec(fn, a, b):
    return [table(fn).read_where('(time >= %d) & (time < %d)' % (a, b),
        field='accel')]
''')
Ob('H02', 'collect: one key with a condition and a range',
   'fn:str a:int b:int lo:float hi:float', IMP + TAB + '''
def impl(fn, a, b, lo, hi):
    return Scene(fn, (a, b)).collect(['pos'], {'xx': (lo, hi, False)})
def spec(fn, a, b, lo, hi):
    return [table(fn).read_where('(time >= %d) & (time < %d) & '
        '((xx >= %.17g) & (xx < %.17g))' % (a, b, lo, hi), field='pos')]
''')
Ob('H02', 'collect: one key, two conditions, an open range',
   'fn:str a:int lo:float hi:float l:float h:float', IMP + TAB + '''
def impl(fn, a, lo, hi, l, h):
    return Scene(fn, (a, None)).collect(['time'],
        {'trajid': (lo, hi, False), 'xx': (l, h, True)})
def spec(fn, a, lo, hi, l, h):
    return [table(fn).read_where('(time >= %d) & '
        '((trajid >= %.17g) & (trajid < %.17g)) & '
        '((xx < %.17g) | (xx >= %.17g))' % (a, lo, hi, l, h),
        field='time')]
''')
Ob('H02', 'collect: everything', 'fn:str keys:list', IMP + TAB + '''
def impl(fn, keys):
    return Scene(fn).collect(keys)
def spec(fn, keys):
    tb = table(fn)
    return [tb.col(k) for k in keys]
''')

# --------------------------------------------------------------- H03
SEG = TAB + '''
def common(rows, ids):
    keep = np.array([i in ids for i in rows['trajid']])
    if len(keep) > 0:
        rows = rows[keep]
    return rows

def pick(rows, t):
    d = {n: rows[n] for n in rows.dtype.fields if n != 'time'}
    d['time'] = t
    return ParticleSnapshot(**d)

def segments(tb, a, b):
    rows = [tb.read_where('time == t') for t in range(a, b)]
    out = []
    for t in range(a, b - 1):
        cur = tb.read_where('time == t')
        u = t + 1
        nxt = tb.read_where('time == u')
        both = set(cur['trajid']) & set(nxt['trajid'])
        cur = common(cur, both)
        nxt = common(nxt, both)
        rank = np.argsort(np.argsort(cur['trajid']))
        nxt = nxt[np.argsort(nxt['trajid'])[rank]]
        out.append((pick(cur, t), pick(nxt, u)))
    return out
'''
Ob('H03', 'segments have the trajectories of both frames',
   'fn:str a:int b:int', IMP + SEG + '''
def impl(fn, a, b):
    return list(Scene(fn, (a, b)).iter_segments())
def spec(fn, a, b):
    return segments(table(fn), a, b)
''')
Ob('H03', 'segments, first of the pair', 'fn:str a:int b:int', IMP + SEG + '''
def impl(fn, a, b):
    return [s[0] for s in Scene(fn, (a, b)).iter_segments()]
def spec(fn, a, b):
    return [s[0] for s in segments(table(fn), a, b)]
''')
Ob('H03', 'segments, second of the pair', 'fn:str a:int b:int',
   IMP + SEG + '''
def impl(fn, a, b):
    return [s[1] for s in Scene(fn, (a, b)).iter_segments()]
def spec(fn, a, b):
    return [s[1] for s in segments(table(fn), a, b)]
''')
Ob('H03', 'segments are one frame apart', 'fn:str a:int b:int',
   IMP + SEG + '''
def impl(fn, a, b):
    return [(s[0].time(), s[1].time())
        for s in Scene(fn, (a, b)).iter_segments()]
def spec(fn, a, b):
    return [(t, t + 1) for t in range(a, b - 1)]
''')
Ob('H03', 'dual segments pair the two files',
   'tr:str pt:str p: a:int b:int', IMP + SEG + '''
def impl(tr, pt, p, a, b):
    out = []
    for f, n in DualScene(tr, pt, 500., p, (a, b)).iter_segments():
        out.append((f.tracers, f.particles, n.tracers, n.particles))
    return out
def spec(tr, pt, p, a, b):
    x = segments(table(tr), a, b)
    y = segments(table(pt), a, b)
    return [(x[i][0], y[i][0], x[i][1], y[i][1])
        for i in range(b - a - 1)]
''')

# --------------------------------------------------------------- H05
Ob('H05', 'keys are the columns but trajid and time', 'fn:str',
   IMP + TAB + '''
def impl(fn):
    return Scene(fn).keys()
def spec(fn):
    return [n for n in table(fn).colnames if n != 'trajid' and n != 'time']
''')
Ob('H05', 'shapes go with the keys', 'fn:str', IMP + TAB + '''
def impl(fn):
    return Scene(fn).shapes()
def spec(fn):
    tb = table(fn)
    out = []
    for n in tb.colnames:
        if n != 'trajid' and n != 'time':
            sh = tb.coldescrs[n].shape
            out.append(sh[0] if len(sh) > 0 else 1)
    return out
''')

# --------------------------------------------------------------- H06
Ob('H06', 'frames pair the same time of the two files',
   'tr:str pt:str p: a:int b:int', IMP + TAB + '''
def impl(tr, pt, p, a, b):
    return [(f.tracers, f.particles)
        for f in DualScene(tr, pt, 500., p, (a, b)).iter_frames()]
def spec(tr, pt, p, a, b):
    x, y = table(tr), table(pt)
    return [(frame_snap(x, t), frame_snap(y, t)) for t in range(a, b)]
''')
Ob('H06', 'a range for one iteration',
   'tr:str pt:str p: a:int b:int c:int d:int', IMP + TAB + '''
def impl(tr, pt, p, a, b, c, d):
    return [(f.tracers, f.particles)
        for f in DualScene(tr, pt, 500., p, (a, b)).iter_frames((c, d))]
def spec(tr, pt, p, a, b, c, d):
    x, y = table(tr), table(pt)
    return [(frame_snap(x, t), frame_snap(y, t)) for t in range(c, d)]
''')
Ob('H06', 'segments over a range for one iteration',
   'tr:str pt:str p: a:int b:int c:int d:int', IMP + SEG + '''
def impl(tr, pt, p, a, b, c, d):
    out = []
    for f, n in DualScene(tr, pt, 500., p, (a, b)).iter_segments((c, d)):
        out.append((f.tracers, f.particles, n.tracers, n.particles))
    return out
def spec(tr, pt, p, a, b, c, d):
    x = segments(table(tr), c, d)
    y = segments(table(pt), c, d)
    return [(x[i][0], y[i][0], x[i][1], y[i][1])
        for i in range(d - c - 1)]
''')
Ob('H06', 'the two scenes and their data', 'tr:str pt:str p: a:int b:int',
   IMP + TAB + '''
def impl(tr, pt, p, a, b):
    s = DualScene(tr, pt, 500., p, (a, b))
    return (s.get_tracers().collect(['pos']), s.get_particles().collect(
        ['pos']), s.get_particles_path(), s.get_range(), s.frate, s.part)
def spec(tr, pt, p, a, b):
    q = '(time >= %d) & (time < %d)' % (a, b)
    return ([table(tr).read_where(q, field='pos')],
        [table(pt).read_where(q, field='pos')], pt, (a, b), 500., p)
''')
Ob('H06', 'read_dual_scene', 'cf:str', IMP + TAB + '''
from flowtracks.particle import Particle
def impl(cf):
    s = read_dual_scene(cf)
    return (s.get_range(), s.frate, s.part.diam, s.part.density,
        s.get_particles_path())
def spec(cf):
    c = ConfigParser()
    c.read(cf)
    return ((c.getint('Scene', 'first frame'),
        c.getint('Scene', 'last frame') + 1),
        c.getfloat('Scene', 'frame rate'),
        c.getfloat('Particle', 'diameter'),
        c.getfloat('Particle', 'density'),
        c.get('Scene', 'particles file'))
''')
Ob('H06', 'read_dual_scene opens the right files', 'cf:str', IMP + TAB + '''
def impl(cf):
    s = read_dual_scene(cf)
    return s.get_tracers().collect(['pos']), s.get_particles().collect(
        ['pos'])
def spec(cf):
    c = ConfigParser()
    c.read(cf)
    q = '(time >= %d) & (time < %d)' % (c.getint('Scene', 'first frame'),
        c.getint('Scene', 'last frame') + 1)
    return ([table(c.get('Scene', 'tracers file')).read_where(q,
        field='pos')], [table(c.get('Scene', 'particles file')).read_where(q,
        field='pos')])
''')

# --------------------------------------------------------------- H07
Ob('H07', 'the range is as before an iteration over another one',
   'tr:str pt:str p: a:int b:int c:int d:int', IMP + TAB + '''
def impl(tr, pt, p, a, b, c, d):
    s = DualScene(tr, pt, 500., p, (a, b))
    for f in s.iter_frames((c, d)):
        pass
    return (s.get_range(), s.get_tracers().frame_range(),
        s.get_particles().frame_range(), s.get_tracers().collect(['pos']),
        s.get_particles().collect(['pos']))
def spec(tr, pt, p, a, b, c, d):
    q = '(time >= %d) & (time < %d)' % (a, b)
    return ((a, b), (a, b), (a, b), [table(tr).read_where(q, field='pos')],
        [table(pt).read_where(q, field='pos')])
''')
Ob('H07', 'the range is as before an iteration over segments of another one',
   'tr:str pt:str p: a:int b:int c:int d:int', IMP + TAB + '''
def impl(tr, pt, p, a, b, c, d):
    s = DualScene(tr, pt, 500., p, (a, b))
    for f in s.iter_segments((c, d)):
        pass
    return (s.get_range(), s.get_tracers().frame_range(),
        s.get_particles().frame_range(), s.get_tracers().collect(['pos']),
        s.get_particles().collect(['pos']))
def spec(tr, pt, p, a, b, c, d):
    q = '(time >= %d) & (time < %d)' % (a, b)
    return ((a, b), (a, b), (a, b), [table(tr).read_where(q, field='pos')],
        [table(pt).read_where(q, field='pos')])
''')
Ob('H07', 'iteration with the default range leaves a set range alone',
   'tr:str pt:str p: a:int b:int', IMP + TAB + '''
def impl(tr, pt, p, a, b):
    s = DualScene(tr, pt, 500., p, (a, b))
    for f in s.iter_frames():
        pass
    for f in s.iter_segments():
        pass
    return s.get_range(), s.get_tracers().frame_range(), \\
        s.get_particles().frame_range()
def spec(tr, pt, p, a, b):
    return (a, b), (a, b), (a, b)
''')
Ob('H07', 'no range given at first', 'tr:str pt:str p: c:int d:int',
   IMP + TAB + '''
def impl(tr, pt, p, c, d):
    s = DualScene(tr, pt, 500., p)
    for f in s.iter_frames((c, d)):
        pass
    for f in s.iter_segments((c, d)):
        pass
    return s.get_range(), s.get_tracers().frame_range(), \\
        s.get_particles().frame_range(), s.get_tracers().collect(['pos']), \\
        s.get_particles().collect(['pos'])
def spec(tr, pt, p, c, d):
    x, y = table(tr), table(pt)
    return None, bounds(x, None, None), bounds(y, None, None), \\
        [x.col('pos')], [y.col('pos')]
''')

# --------------------------------------------------------------- H09
Ob('H09', 'bounding box from the data', 'fn:str a:int b:int', IMP + TAB + '''
def impl(fn, a, b):
    return Scene(fn, (a, b)).bounding_box()
def spec(fn, a, b):
    tb = table(fn)
    if 'min_pos' in tb._v_attrs._f_list():
        return tb._v_attrs.min_pos, tb._v_attrs.max_pos
    p = tb.read_where('(time >= %d) & (time < %d)' % (a, b), field='pos')
    return p.min(axis=0), p.max(axis=0)
''')

# --------------------------------------------------------------- H10
Ob('H10', 'ids of the trajectories', 'fn:str', IMP + TAB + '''
def impl(fn):
    return Scene(fn).trajectory_ids()
def spec(fn):
    return ids(fn)
''')
Ob('H10', 'trajectory tags', 'fn:str', IMP + TAB + '''
def impl(fn):
    return Scene(fn).trajectory_tags()
def spec(fn):
    b = tables.open_file(fn).get_node('/bounds')
    return np.hstack([b.col('trajid')[:, None], b.col('first')[:, None],
        b.col('last')[:, None]])
''')
Ob('H10', 'all points of a trajectory', 'fn:str i:int', IMP + TAB + '''
def impl(fn, i):
    return Scene(fn).trajectory_by_id(i)
def spec(fn, i):
    rows = table(fn).read_where('trajid == i')
    d = {n: rows[n] for n in rows.dtype.fields if n != 'trajid'}
    d['trajid'] = i
    return Trajectory(**d)
''')
Ob('H10', 'every trajectory is iterated over', 'fn:str', IMP + TAB + '''
def impl(fn):
    return list(Scene(fn).iter_trajectories())
def spec(fn):
    out = []
    for trid in ids(fn):
        rows = table(fn).read_where('trajid == trid')
        d = {n: rows[n] for n in rows.dtype.fields if n != 'trajid'}
        d['trajid'] = trid
        out.append(Trajectory(**d))
    return out
''')

# A range of None is that of the whole file, also for one iteration.
for meth, both in (('frames', '[(f.tracers, f.particles) for f in %s]'),
                   ('segments', '[(f.tracers, f.particles, n.tracers, '
                    'n.particles) for f, n in %s]')):
    Ob('H06', '%s of the whole files for one iteration' % meth,
       'tr:str pt:str p: a:int b:int', IMP + '''
def impl(tr, pt, p, a, b):
    s = DualScene(tr, pt, 500., p, (a, b))
    return %s
def spec(tr, pt, p, a, b):
    s = DualScene(tr, pt, 500., p)
    return %s
''' % (both % ('s.iter_%s(None)' % meth), both % ('s.iter_%s()' % meth)))
Ob('H07', 'the range is as before an iteration over the whole files',
   'tr:str pt:str p: a:int b:int', IMP + '''
def impl(tr, pt, p, a, b):
    s = DualScene(tr, pt, 500., p, (a, b))
    for f in s.iter_frames(None):
        pass
    for f in s.iter_segments(None):
        pass
    return s.get_range(), s.get_tracers().frame_range(), \\
        s.get_particles().frame_range()
def spec(tr, pt, p, a, b):
    return (a, b), (a, b), (a, b)
''')

for meth in ('frames', 'segments'):
    Ob('H07', 'no range given at first, %s' % meth,
       'tr:str pt:str p: c:int d:int', IMP + TAB + '''
def impl(tr, pt, p, c, d):
    s = DualScene(tr, pt, 500., p)
    for f in s.iter_%s((c, d)):
        pass
    return s.get_range(), s.get_tracers().frame_range(), \\
        s.get_particles().frame_range(), s.get_tracers().collect(['pos']), \\
        s.get_particles().collect(['pos'])
def spec(tr, pt, p, c, d):
    x, y = table(tr), table(pt)
    return None, bounds(x, None, None), bounds(y, None, None), \\
        [x.col('pos')], [y.col('pos')]
''' % meth)
    Ob('H07', 'the range is as before iteration over %s that is left' % meth,
       'tr:str pt:str p: a:int b:int c:int d:int', IMP + TAB + '''
def impl(tr, pt, p, a, b, c, d):
    s = DualScene(tr, pt, 500., p, (a, b))
    abandon(s.iter_%s((c, d)))
    return s.get_range(), s.get_tracers().frame_range(), \\
        s.get_particles().frame_range(), s.get_tracers().collect(['pos']), \\
        s.get_particles().collect(['pos'])
def spec(tr, pt, p, a, b, c, d):
    q = '(time >= %%d) & (time < %%d)' %% (a, b)
    return ((a, b), (a, b), (a, b), [table(tr).read_where(q, field='pos')],
        [table(pt).read_where(q, field='pos')])
''' % meth)
