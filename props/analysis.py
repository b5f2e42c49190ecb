from vsa.oblig import Ob
from props.scene import TAB, SEG

IMP = '''
from flowtracks.scene import Scene, DualScene, read_dual_scene, \\
    gen_query_string
from flowtracks.analysis import analysis, companion_indices, \\
    FluidVelocitiesAnalyser, GeneralAnalyser
from flowtracks.an_scene import AnalysedScene
from flowtracks.interpolation import interpolant
'''
EV = [('call', 'create_table'), ('call', 'append'),
      ('call', 'tables.open_file'), ('call', 'create_index'),
      ('call', 'close'), ('setattr', None), ('setitem', None)]
ROWS = SEG + '''
def write(fn, conf, pt, segs, ans):
    dt = [('trajid', int), ('time', int)]
    for an in ans:
        dt = dt + an.descr()
    dt = np.dtype(dt)
    out = tables.open_file(fn, 'w', title="Analysis results.")
    tab = out.create_table('/', 'analysis', dt)
    tab.attrs['config'] = conf
    tab.attrs['trajects'] = pt
    for f, n in segs:
        arr = np.empty(len(f.particles), dtype=dt)
        arr['trajid'] = f.particles.trajid()
        arr['time'] = f.particles.time()
        for an in ans:
            got = an.analyse(f, n)
            for res, d in zip(got, an.descr()):
                arr[d[0]] = res
        tab.append(arr)
    tab.cols.trajid.create_index()
    tab.cols.time.create_index()
    out.flush()
    out.close()
'''
Ob('A01', 'one row per particle and segment, all analysers',
   'sc: fn:str conf:str ans:list', IMP + ROWS + '''
def impl(sc, fn, conf, ans):
    analysis(sc, fn, conf, ans)
def spec(sc, fn, conf, ans):
    write(fn, conf, sc.get_particles_path(), sc.iter_segments(-1), ans)
''', events=EV)
Ob('A01', 'the range of frames is passed on',
   'sc: fn:str conf:str ans:list r:', IMP + ROWS + '''
def impl(sc, fn, conf, ans, r):
    analysis(sc, fn, conf, ans, r)
def spec(sc, fn, conf, ans, r):
    write(fn, conf, sc.get_particles_path(), sc.iter_segments(r), ans)
''', events=EV)
Ob('A01', 'analysis of a scene given by two files',
   'tr:str pt:str p: a:int b:int c:int d:int fn:str conf:str ans:list',
   IMP + ROWS + '''
def impl(tr, pt, p, a, b, c, d, fn, conf, ans):
    analysis(DualScene(tr, pt, 500., p, (a, b)), fn, conf, ans, (c, d))
def spec(tr, pt, p, a, b, c, d, fn, conf, ans):
    sc = DualScene(tr, pt, 500., p, (a, b))
    write(fn, conf, pt, sc.iter_segments((c, d)), ans)
''', events=EV)
Ob('A01', 'the base class demands both methods', 'f: n:', IMP + '''
class An(GeneralAnalyser):
    def descr(self):
        return [('x', float, 3)]
    def analyse(self, f, n):
        return [f.particles.pos()]
def impl(f, n):
    a = An()
    return a.descr(), a.analyse(f, n)
def spec(f, n):
    return [('x', float, 3)], [f.particles.pos()]
''')

Ob('A02', 'companions by trajectory', 't:arr c:arr', IMP + '''
def impl(t, c):
    return companion_indices(t, c)
def spec(t, c):
    at = np.nonzero(t[:, None] == c)
    out = np.full_like(c, -1)
    out[at[1]] = at[0]
    return out
''')
Ob('A02', 'the description of the results', 'ip:obj', IMP + '''
def impl(ip):
    return FluidVelocitiesAnalyser(ip).descr()
def spec(ip):
    return [('fluid_vel', float, 3), ('rel_vel', float, 3)]
''')
Ob('A02', 'fluid velocity and relative velocity',
   'ip:obj f:frame n:frame', IMP + '''
def impl(ip, f, n):
    return FluidVelocitiesAnalyser(ip).analyse(f, n)
def spec(ip, f, n):
    if f.particles.has_property('companion'):
        comp = companion_indices(f.tracers.trajid(),
                                 f.particles.companion())
    else:
        comp = None
    ip.set_scene(f.tracers.pos(), f.particles.pos(), f.tracers.velocity(),
                 comp)
    vel = ip.interpolate()
    return [vel, f.particles.velocity() - vel]
''', opaque={'flowtracks.analysis.companion_indices': 'arr'})
Ob('A02', 'the scene given to the interpolant', 'ip:obj f:frame n:frame',
   IMP + '''
def impl(ip, f, n):
    FluidVelocitiesAnalyser(ip).analyse(f, n)
def spec(ip, f, n):
    if f.particles.has_property('companion'):
        comp = companion_indices(f.tracers.trajid(),
                                 f.particles.companion())
    else:
        comp = None
    ip.set_scene(f.tracers.pos(), f.particles.pos(), f.tracers.velocity(),
                 comp)
''', opaque={'flowtracks.analysis.companion_indices': 'arr'},
   events=[('call', 'set_scene')])

AN = SEG + '''
class An(object):
    def __init__(self, fn):
        self.an = tables.open_file(fn).get_node('/analysis')
        c = ConfigParser()
        c.read(self.an.attrs['config'])
        self.pt = table(c.get('Scene', 'particles file'))
        self.parts = c.get('Scene', 'particles file')
        self.a = c.getint('Scene', 'first frame')
        self.b = c.getint('Scene', 'last frame') + 1
        self.pkeys = [n for n in self.pt.colnames
                      if n != 'trajid' and n != 'time']

    def traj(self, i):
        rows = self.pt.read_where(
            '(trajid == i) & (time >= %d) & (time < %d)' % (self.a, self.b))
        more = self.an.read_where('(trajid == i)')
        there = np.isin(rows['time'], more['time'])
        more = more[np.isin(more['time'], rows['time'])]
        d = {n: rows[n][there] for n in rows.dtype.fields if n != 'trajid'}
        d['trajid'] = i
        for n in more.dtype.fields:
            if n != 'trajid' and n != 'time':
                d[n] = more[n]
        return Trajectory(**d)

    def collect(self, keys, pc, ac):
        res = dict((k, []) for k in keys)
        for t in range(self.a, self.b):
            p = self.pt.read_where('(time == t)' + pc)
            a = self.an.read_where('(time == t)' + ac)
            both = set(p['trajid']) & set(a['trajid'])
            inp = np.array([i in both for i in p['trajid']])
            ina = np.array([i in both for i in a['trajid']])
            if len(inp) > 0:
                p = p[inp]
            if len(ina) > 0:
                a = a[ina]
            for k in keys:
                res[k].append(p[k] if k in self.pkeys else a[k])
        return [np.concatenate(res[k], axis=0) for k in keys]
'''
Ob('H05', 'keys of an analysed scene', 'fn:str', IMP + AN + '''
def impl(fn):
    return AnalysedScene(fn).keys()
def spec(fn):
    s = An(fn)
    return [n for n in s.pt.colnames if n != 'trajid' and n != 'time'] + [
        n for n in s.an.colnames if n != 'trajid' and n != 'time']
''')
Ob('H05', 'shapes of an analysed scene', 'fn:str', IMP + AN + '''
def impl(fn):
    return AnalysedScene(fn).shapes()
def spec(fn):
    s = An(fn)
    out = []
    for tb in (s.pt, s.an):
        for n in tb.colnames:
            if n != 'trajid' and n != 'time':
                sh = tb.coldescrs[n].shape
                out.append(sh[0] if len(sh) > 0 else 1)
    return out
''')
Ob('A03', 'trajectory_by_id has particle and analysis data',
   'fn:str i:int', IMP + AN + '''
def impl(fn, i):
    return AnalysedScene(fn).trajectory_by_id(i)
def spec(fn, i):
    return An(fn).traj(i)
''')
Ob('A03', 'iter_trajectories: all of the particles file', 'fn:str',
   IMP + AN + '''
def impl(fn):
    return list(AnalysedScene(fn).iter_trajectories())
def spec(fn):
    s = An(fn)
    return [s.traj(i) for i in ids(s.parts)]
''')
Ob('A03', 'collect without conditions', 'fn:str', IMP + AN + '''
def impl(fn):
    return AnalysedScene(fn).collect(['pos', 'fluid_vel'])
def spec(fn):
    return An(fn).collect(['pos', 'fluid_vel'], '', '')
''')
Ob('A03', 'collect: a condition goes to the table with the key',
   'fn:str lo:float hi:float', IMP + AN + '''
def impl(fn, lo, hi):
    return AnalysedScene(fn).collect(['pos', 'fluid_vel'],
        {'xx': (lo, hi, False)})
def spec(fn, lo, hi):
    s = An(fn)
    q = ' & ((xx >= %.17g) & (xx < %.17g))' % (lo, hi)
    if 'xx' in s.pkeys:
        return s.collect(['pos', 'fluid_vel'], q, '')
    return s.collect(['pos', 'fluid_vel'], '', q)
''')
Ob('A03', 'collect: an inverted condition',
   'fn:str lo:float hi:float', IMP + AN + '''
def impl(fn, lo, hi):
    return AnalysedScene(fn).collect(['fluid_vel'],
        where={'rel_vel_x': (lo, hi, True)})
def spec(fn, lo, hi):
    s = An(fn)
    q = ' & ((rel_vel_x < %.17g) | (rel_vel_x >= %.17g))' % (lo, hi)
    if 'rel_vel_x' in s.pkeys:
        return s.collect(['fluid_vel'], q, '')
    return s.collect(['fluid_vel'], '', q)
''')
Ob('A03', 'collect: several conditions all hold',
   'fn:str a:float b:float c:float d:float', IMP + AN + '''
def impl(fn, a, b, c, d):
    return AnalysedScene(fn).collect(['pos', 'fluid_vel'],
        {'xx': (a, b, False), 'yy': (c, d, True)})
def spec(fn, a, b, c, d):
    s = An(fn)
    q1 = ' & ((xx >= %.17g) & (xx < %.17g))' % (a, b)
    q2 = ' & ((yy < %.17g) | (yy >= %.17g))' % (c, d)
    pc, ac = '', ''
    if 'xx' in s.pkeys:
        pc = pc + q1
    else:
        ac = ac + q1
    if 'yy' in s.pkeys:
        pc = pc + q2
    else:
        ac = ac + q2
    return s.collect(['pos', 'fluid_vel'], pc, ac)
''')
# ------------------------------------------------------------ command line
CLI = '''
import argparse
def words():
    p = argparse.ArgumentParser()
    p.add_argument('config')
    p.add_argument('output')
    p.add_argument('--method', choices=['inv', 'rbf', 'corrfun'],
                   default='inv')
    p.add_argument('--neighbs', type=int, default=4)
    p.add_argument('--param', '-p')
    return p.parse_args()
'''
Ob('A04', 'arguments of the command line reach the analysis', '', IMP + CLI +
   '''
import scripts.analyse_fhdf as cli
def impl():
    cli.__main__()
def spec():
    w = words()
    q = w.param
    if q is not None and w.method != 'corrfun':
        q = float(q)
    analysis(read_dual_scene(w.config), w.output, w.config,
        [FluidVelocitiesAnalyser(interpolant(w.method, w.neighbs, None, q))])
''', opaque={'flowtracks.analysis.analysis': None,
             'flowtracks.scene.read_dual_scene': None,
             'flowtracks.interpolation.interpolant': None},
   events=[('call', 'flowtracks.analysis.analysis')], result=False)
Ob('A04', 'arguments of the command line', '', IMP + CLI + '''
import scripts.analyse_fhdf as cli
def impl():
    cli.__main__()
def spec():
    words()
''', opaque={'flowtracks.analysis.analysis': None,
             'flowtracks.scene.read_dual_scene': None,
             'flowtracks.interpolation.interpolant': None},
   events=[('call', 'add_argument')], result=False)
