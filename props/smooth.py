from vsa.oblig import Ob

IMP = '''
from flowtracks.smoothing import savitzky_golay
from flowtracks.pairs import particle_pairs
from flowtracks.trajectory import trajectories_in_frame, take_snapshot
import matplotlib.pyplot as pl
'''
SG = '''
def rows(order, w, fps):
    w = np.abs(np.int64(w))
    order = np.abs(np.int64(order))
    half = (w - 1) // 2
    b = np.array([[k ** i for i in range(order + 1)]
                  for k in range(-half, half + 1)])
    m = np.vstack((np.linalg.pinv(b), np.zeros((4, w))))
    return half, m[0], m[1] * fps, m[2] * (fps ** 2 * 2), \\
        m[3] * (fps ** 3 * 6)
def padded(y, half):
    return np.concatenate((y[0] - np.abs(y[1:half + 1][::-1] - y[0]), y,
        y[-1] + np.abs(y[-half - 1:-1][::-1] - y[-1])))
def conv(tr, half, m):
    return np.array([np.convolve(m[::-1], padded(y, half), mode='valid')
                     for y in tr.pos().T]).T
'''
HD = '''
def impl(trajs, fps, w, order):
    return %s
def spec(trajs, fps, w, order):
    half, mp, mv, ma, mj = rows(order, w, fps)
    return [%s for t in trajs if len(t) >= np.abs(np.int64(w))]
'''
P = 'trajs:[traj] fps:float w:int order:int'
for pr, nm, im, sp in [
        ('S01', 'smoothed positions', 'pos()', 'conv(t, half, mp)'),
        ('S01', 'velocity is the first derivative', 'velocity()',
         'conv(t, half, mv)'),
        ('S01', 'acceleration is the second derivative', 'accel()',
         'conv(t, half, ma)'),
        ('S02', 'times are kept', 'time()', 't.time()'),
        ('S02', 'ids are kept', 'trajid()', 't.trajid()')]:
    Ob(pr, nm, P, IMP + SG + HD % (
        '[x.%s for x in savitzky_golay(trajs, fps, w, order)]' % im, sp))
Ob('S01', 'previous polynomial: velocity', P, IMP + SG + HD % (
    '[x.vel_pp() for x in savitzky_golay(trajs, fps, w, order)]',
    'np.vstack((np.zeros(3), conv(t, half, mv) + conv(t, half, ma) / fps + '
    'conv(t, half, mj) / 2. / fps ** 2))[:-1]'))
Ob('S01', 'previous polynomial: acceleration', P, IMP + SG + HD % (
    '[x.acc_pp() for x in savitzky_golay(trajs, fps, w, order)]',
    'np.vstack((np.zeros(3), conv(t, half, ma) + conv(t, half, mj) / fps))'
    '[:-1]'))
Ob('S02', 'short trajectories are left out, the rest in order', P,
   IMP + SG + '''
def impl(trajs, fps, w, order):
    return [x.trajid() for x in savitzky_golay(trajs, fps, w, order)]
def spec(trajs, fps, w, order):
    return [t.trajid() for t in trajs if len(t) >= np.abs(np.int64(w))]
''')
Ob('S02', 'all the results of one trajectory together', P, IMP + SG + HD % (
    '[(x.pos(), x.velocity(), x.time(), x.trajid(), x.accel()) for x in '
    'savitzky_golay(trajs, fps, w, order)]',
    '(conv(t, half, mp), conv(t, half, mv), t.time(), t.trajid(), '
    'conv(t, half, ma))'))
Ob('S02', 'other properties are carried over', 'p:arr2 v:arr2 t:arr1 i:int '
   'u:arr1 x:arr2 fps:float w:int order:int', IMP + SG + '''
def impl(p, v, t, i, u, x, fps, w, order):
    tr = Trajectory(p, v, t, i, companion=u, extra=x)
    return [(y.companion(), y.extra()) for y in
            savitzky_golay([tr], fps, w, order)]
def spec(p, v, t, i, u, x, fps, w, order):
    tr = Trajectory(p, v, t, i, companion=u, extra=x)
    return [(u, x) for y in [tr] if len(y) >= np.abs(np.int64(w))]
''')
Ob('S02', 'smoothing twice', 'p:arr2 v:arr2 t:arr1 i:int fps:float w:int '
   'order:int', IMP + SG + '''
def impl(p, v, t, i, fps, w, order):
    tr = Trajectory(p, v, t, i, accel=v, vel_pp=v, acc_pp=v)
    return [(y.accel(), y.time(), y.vel_pp(), y.acc_pp()) for y in
            savitzky_golay([tr], fps, w, order)]
def spec(p, v, t, i, fps, w, order):
    return [(y.accel(), t, y.vel_pp(), y.acc_pp()) for y in
            savitzky_golay([Trajectory(p, v, t, i)], fps, w, order)]
''')
for nm, args, err in [
        ('an even window', '[], fps, 4, 1', 'TypeError'),
        ('a window smaller than order + 2', '[], fps, 3, 2', 'TypeError')]:
    Ob('S02', 'refused: ' + nm, 'fps:float', IMP + '''
def impl(fps):
    try:
        savitzky_golay(%s)
    except %s:
        return 'refused'
    return 'accepted'
def spec(fps):
    return 'refused'
''' % (args, err))
# ----------------------------------------------------------------- pairs
PAIR = '''
def pairs(prim, sec, ids, pts):
    trid = np.full_like(pts, -1)
    when = np.full_like(pts, -1)
    wanted = np.unique(ids)
    prim = [t for t in prim if t.trajid() in wanted]
    frames = np.empty_like(pts)
    for t in prim:
        at = ids == t.trajid()
        frames[at] = t.time(pts[at])
    found = np.isin(ids, [t.trajid() for t in prim])
    for f in np.unique(frames[found]):
        at = found & (frames == f)
        there = np.unique(ids[at])
        ps = take_snapshot([t for t in prim if t.trajid() in there], f,
                           prim[0].schema())
        cand = [sec[i] for i in trajectories_in_frame(sec, f, segs=True)]
        if len(cand) == 0:
            trid[at] = -1
            when[at] = -1
            continue
        ss = take_snapshot(cand, f, cand[0].schema())
        near = np.argmin(np.sum((ps.pos()[:, None, :] -
            ss.pos()[None, :, :]) ** 2, axis=2), axis=1)
        mine = [np.nonzero(ps.trajid() == i)[0][0] for i in ids[at]]
        trid[at] = ss.trajid(near[mine])
        when[at] = f
    hit = np.unique(trid)
    for t in sec:
        if t.trajid() in hit:
            when[trid == t.trajid()] -= int(t.time(0))
    return trid, when
'''
OP = {'flowtracks.trajectory.trajectories_in_frame': 'arr',
      'flowtracks.trajectory.take_snapshot': None}
Ob('S03', 'nearest particle of the second set', 'a:[traj] b:[traj] ids:arr1 '
   'pts:arr1', IMP + PAIR + '''
def impl(a, b, ids, pts):
    return particle_pairs(a, b, ids, pts)
def spec(a, b, ids, pts):
    return pairs(a, b, ids, pts)
''', opaque=OP)
# ---------------------------------------------------------------- graphics
Ob('G01', 'linear bins', 'd:arr1 n:int', IMP + '''
from flowtracks.graphics import *
def impl(d, n):
    return pdf_bins(d, n)
def spec(d, n):
    h, e = np.histogram(d, bins=n, density=True)
    return h, e
''')
Ob('G01', 'logarithmic bins of the positive samples', 'd:arr1 n:int',
   IMP + '''
from flowtracks.graphics import *
def impl(d, n):
    return pdf_bins(d, n, True)
def spec(d, n):
    d = d[d > 0]
    h, e = np.histogram(d, bins=np.logspace(np.log10(d.min()),
        np.log10(d.max()), n + 1), density=True)
    return h, e
''')
for lb in (True, False):
    for ld in (True, False):
        fn = {(1, 1): 'loglog', (1, 0): 'semilogx', (0, 1): 'semilogy',
              (0, 0): 'plot'}[int(lb), int(ld)]
        Ob('G01', 'graph of a density: log bins %s, log density %s' % (
            lb, ld), 'd:arr1 n:int mk:str', IMP + '''
from flowtracks.graphics import *
def impl(d, n, mk):
    pdf_graph(d, n, %r, %r, mk)
def spec(d, n, mk):
    h, e = pdf_bins(d, n, %r)
    pl.%s(e[:-1], h, '-' + mk)
''' % (lb, ld, lb, fn), opaque={'flowtracks.graphics.pdf_bins': None},
           events=[('call', 'matplotlib.pyplot.' + x) for x in
                   ('loglog', 'semilogx', 'semilogy', 'plot')])
Ob('G01', 'vectors: each component in its own subplot',
   'v:arr2 x:arr1 l:str m:str ar:arr2 ac:str', IMP + '''
from flowtracks.graphics import *
def impl(v, x, l, m, ar, ac):
    plot_vectors(v, x, l, marker=m, arrows=ar, arrow_color=ac)
def spec(v, x, l, m, ar, ac):
    for i in range(3):
        pl.subplot(3, 1, i + 1)
        pl.plot(x, v[:, i], m)
        pl.quiver(x, v[:, i], np.zeros(v.shape[0]), ar[:, i], scale=30,
                  width=1e-3, color=ac)
    pl.xlabel(l)
''', events=[('call', 'matplotlib.pyplot.' + x) for x in
             ('subplot', 'plot', 'quiver', 'xlabel')])
Ob('G01', 'vectors: scale and ticks', 'v:arr2 x:arr1 l:str cs:float nt:int',
   IMP + '''
from flowtracks.graphics import *
def impl(v, x, l, cs, nt):
    plot_vectors(v, x, l, ytick_dens=nt, common_scale=cs)
def spec(v, x, l, cs, nt):
    for i in range(3):
        pl.ylim(np.r_[-cs, cs] + v[:, i].mean())
        pl.yticks(np.linspace(v[:, i].min(), v[:, i].max(), nt))
''', events=[('call', 'matplotlib.pyplot.' + x) for x in
             ('ylim', 'yticks')])
Ob('G01', 'vectors: the figure given is used', 'v:arr2 x:arr1 l:str f:',
   IMP + """
from flowtracks.graphics import *
def impl(v, x, l, f):
    plot_vectors(v, x, l, fig=f)
def spec(v, x, l, f):
    pl.figure(None if f is None else f.number)
""", events=[('call', 'matplotlib.pyplot.figure')])
