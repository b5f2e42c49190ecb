"""
Client code exercising every public operation of the package, for the rules
about effects: what must not be changed, written, left open, or depended on.
"""
IMP = '''
import numpy as np
from flowtracks.trajectory import *
from flowtracks.trajectory import Frame
from flowtracks.io import *
from flowtracks.scene import Scene, DualScene, read_dual_scene, \\
    gen_query_string
from flowtracks.an_scene import AnalysedScene
from flowtracks.analysis import analysis, companion_indices, \\
    FluidVelocitiesAnalyser
from flowtracks.sequence import Sequence, read_sequence
from flowtracks.particle import Particle
from flowtracks.interpolation import interpolant, select_neighbs, \\
    corrfun_interp, rbf_interp, InverseDistanceWeighter, read_interpolant
from flowtracks.smoothing import savitzky_golay
from flowtracks.pairs import particle_pairs
from flowtracks.graphics import pdf_bins, pdf_graph, plot_vectors, \\
    generalized_histogram_disp
'''
READ = {'flowtracks.io.trajectories': '[traj]',
        'flowtracks.io.infer_format': 'str'}
C = []


class Client(object):
    def __init__(self, name, group, params, body, opaque=()):
        self.name, self.group, self.params = name, group.split(), params
        self.body = body
        self.opaque = opaque if isinstance(opaque, dict) else \
            dict((k, None) for k in opaque)
        C.append(self)

    @property
    def text(self):
        ns = ', '.join(p.partition(':')[0] for p in self.params.split())
        return IMP + 'def go(%s):\n' % ns + '\n'.join(
            '    ' + ln for ln in self.body.strip('\n').split('\n')) + '\n'


# ---------------------------------------------------------------- data
TR = 'p:arr2 v:arr2 t:arr1 i:int e:arr2 w:arr1 '
for kl, prm in (('Trajectory', TR), ('ParticleSnapshot',
                'p:arr2 v:arr2 t:int i:arr1 e:arr2 w:arr1 ')):
    n = 'trajectory' if kl == 'Trajectory' else 'snapshot'
    mk = 'x = %s(p, v, t, i, foo=e)\n' % kl
    Client(n + ': properties', 'data', prm, mk + '''
a = (x.pos(), x.velocity(), x.time(), x.trajid(), x.foo(), len(x))
b = (x.schema(), x.ext_schema(), x.as_dict(), x.has_property('foo'))
return a, b
''')
    Client(n + ': selections', 'data', prm + 's:int', mk + '''
return x.pos(s), x.foo(s)
''')
    Client(n + ': a new property', 'data', prm, mk + '''
x.create_property('bar', w)
x.create_property('vec', e)
return x.bar(), x.vec(), x.as_dict()
''')
    Client(n + ': whole replacement', 'data', prm, mk + '''
x.set_foo(v)
x.set_pos(e)
return x.foo(), x.pos()
''')
Client('trajectory: rows', 'data', TR + 's:int', '''
x = Trajectory(p, v, t, i, foo=e)
return x[s], x[:s], x[t > 3]
''')
Client('trajectory: smoothing spline', 'data', 'tr:traj b:float o:int', '''
return tr.smoothed(b, o)
''')
Client('unique rows', 'data', 'a:arr2', 'return mark_unique_rows(a)')
Client('frame', 'data', 'tr:snap pt:snap', '''
f = Frame(tr, pt)
return f.tracers, f.particles
''')
for segs in (False, True):
    Client('trajectories in a frame, segments %s' % segs, 'data',
           'trs:trajs f:int a:arr1 b:arr1', '''
return (trajectories_in_frame(trs, f, segs=%s),
        trajectories_in_frame(trs, f, a, b, segs=%s))
''' % (segs, segs))
Client('snapshot of trajectories', 'data', 'trs:trajs f:int sc:dict', '''
return take_snapshot(trs, f, trs[0].schema())
''')
Client('snapshot of a given schema', 'data', 'trs:trajs f:int sc:dict', '''
return take_snapshot(trs, f, sc)
''')
# ---------------------------------------------------------------- readers
for fmt, op in (('mat', 'trajectories_mat'), ('npz', 'load_trajectories'),
                ('acc', 'trajectories_acc'), ('xuap', 'trajectories_ptvis'),
                ('ptvis', 'trajectories_ptvis'),
                ('hdf', 'trajectories_table')):
    for it in (False, True):
        Client('trajectories of format %s%s' % (fmt, ', one by one' * it),
               'read', 'fn:str a:int b:int r:float m:int', '''
return list(trajectories(fn, a, b, r, %r, m, iter_allowed=%r))
''' % (fmt, it), {'flowtracks.io.' + op: 'tuple' if fmt == 'npz'
                  else '[traj]'})
Client('trajectories of a Matlab file', 'read', 'fn:str',
       'return trajectories_mat(fn)')
Client('trajectories of saved arrays', 'read', 'fn:str a:int b:int',
       'return load_trajectories(fn, a, b)')
Client('trajectories of saved arrays, all', 'read', 'fn:str',
       'return load_trajectories(fn)')
Client('trajectories of text files', 'read', 'fn:str a:int b:int',
       'return trajectories_acc(fn, a, b)')
Client('trajectories of text files, all', 'read', 'fn:str',
       'return trajectories_acc(fn)')
Client('trajectories of a table', 'read', 'fn:str a:int b:int',
       'return trajectories_table(fn, a, b)')
for x in (False, True):
    Client('trajectories of frame files%s' % (' with velocities' * x),
           'read', 'fn:str a:int b:int r:float m:int', '''
return trajectories_ptvis(fn, a, b, r, %r, m)
''' % x)
Client('frame files', 'read', 'fn:str s:int a:int b:int', '''
it = FramesIterator(fn, [('x', float)], s, a, b)
return [fr for fr in it]
''')
Client('one file of frames', 'read', 'fn:str', '''
it = SingleFileIterator(fn, [('x', float)])
return [fr for fr in it]
''')
Client('particles of a frame', 'read', 'fn:str f:int seg:bool',
       'return collect_particles(fn, f, seg)')
Client('particles of a frame, Matlab', 'read', 'fn:str f:int seg:bool',
       'return collect_particles_mat(fn, f, seg)',
       {'flowtracks.io.trajectories_mat': '[traj]'})
Client('particles of a frame of trajectories', 'read',
       'trs:trajs f:int', '''
return (collect_particles_generic(trs, f),
        collect_particles_generic(trs, f, True))
''')
Client('scene of a configuration', 'read', 'fn:str',
       'return read_frame_data(fn)', READ)
Client('a sequence of a configuration', 'read', 'fn:str',
       'return read_sequence(fn)', READ)
Client('an interpolant of a configuration', 'read', 'fn:str',
       'return read_interpolant(fn)')
# ---------------------------------------------------------------- writers
Client('save arrays', 'write', 'd:str trs:trajs adds:dict kw:arr1',
       'return save_trajectories(d, trs, adds, extra=kw)')
Client('save a table', 'write', 'fn:str trs:trajs',
       'return save_particles_table(fn, trs)')
Client('save a trimmed table', 'write', 'fn:str trs:trajs n:int',
       'return save_particles_table(fn, trs, n)')
Client('save frames', 'write', 'fn:str frames:snaps',
       'return save_frames_hdf(fn, frames)')
Client('analyse a scene', 'write', 'sc: fn:str conf:str ans:list',
       'return analysis(sc, fn, conf, ans)')
Client('save the sequence', 'conf',
       'a:int b:int r:float q: pt:str tt:str cfg:cfg', '''
s = Sequence((a, b), r, Particle(q, q), pt, tt)
s.save_config(cfg)
''', READ)
# ---------------------------------------------------------------- scenes
S1 = 'sc = Scene(fn, (a, b))\n'
P1 = 'fn:str a:int b:int '
for nm, prm, body in [
        ('range', 'c:int d:int', '''
sc.set_frame_range((c, d))
sc.set_frame_range(None)
return sc.frame_range(), sc.keys(), sc.shapes()'''),
        ('trajectories', 'i:int', '''
return [t for t in sc.iter_trajectories()], sc.trajectory_ids()'''),
        ('one trajectory', 'i:int', '''
return sc.trajectory_by_id(i)'''),
        ('frames', '', 'return [f for f in sc.iter_frames()]'),
        ('segments', '', '''
return [(f.pos(), n.pos()) for f, n in sc.iter_segments()]'''),
        ('one frame', 't:int', 'return sc.frame_by_time(t)'),
        ('collection', 'keys:list w:dict', '''
return sc.collect(['pos', 'velocity']), sc.collect(['pos', 'time'], w)'''),
        ('collection of given keys', 'k:list w:dict',
         'return sc.collect(k, w), sc.collect(k)'),
        ('extents', '', 'return sc.bounding_box()'),
        ('tags', '', 'return sc.trajectory_tags()')]:
    Client('scene: ' + nm, 'scene', P1 + prm, S1 + body.strip('\n'))
S2 = 'sc = DualScene(tr, pt, r, q, (a, b))\n'
P2 = 'tr:str pt:str r:float q: a:int b:int '
for nm, prm, body in [
        ('frames', '', '''
return [(f.tracers.pos(), f.particles.pos())
        for f in sc.iter_frames()]'''),
        ('segments', '', '''
return [(f.tracers.pos(), n.particles.pos())
        for f, n in sc.iter_segments()]'''),
        ('parts', '', '''
return (sc.get_particles_path(), sc.get_range(), sc.get_particles().keys(),
        sc.get_tracers().keys())'''),
        ('frames of another range', 'c:int d:int', '''
return [f.particles.pos() for f in sc.iter_frames((c, d))]''')]:
    Client('dual scene: ' + nm, 'scene', P2 + prm, S2 + body.strip('\n'))
Client('dual scene of a configuration', 'scene', 'fn:str',
       'return read_dual_scene(fn)')
S3 = 'sc = AnalysedScene(fn)\n'
for nm, prm, body in [
        ('keys', '', 'return sc.keys(), sc.shapes()'),
        ('collection', 'w:dict', '''
return sc.collect(['fluid_vel'], w), sc.collect(['pos', 'fluid_vel'])'''),
        ('collection of given keys', 'k:list w:dict',
         'return sc.collect(k, w)'),
        ('one trajectory', 'i:int', 'return sc.trajectory_by_id(i)'),
        ('trajectories', '', '''
return [t for t in sc.iter_trajectories()]''')]:
    Client('analysed scene: ' + nm, 'scene', 'fn:str ' + prm,
           S3 + body.strip('\n'))
Client('query', 'query', 'k:str r:list', 'return gen_query_string(k, r)')
# ---------------------------------------------------------------- the rest
Client('companions', 'calc', 'a:arr1 b:arr1',
       'return companion_indices(a, b)')
Client('fluid velocities', 'calc', 'ip:obj f:frame n:frame', '''
an = FluidVelocitiesAnalyser(ip)
return an.descr(), an.analyse(f, n)
''')
Client('pairs', 'calc', 'xs:trajs ys:trajs i:arr1 t:arr1',
       'return particle_pairs(xs, ys, i, t)')
Client('polynomial smoothing', 'calc', 'trs:trajs fps:float w:int o:int',
       'return savitzky_golay(trs, fps, w, o)')
Client('bins', 'calc', 'd:arr1 n:int',
       'return pdf_bins(d, n), pdf_bins(d, n, True)')
Client('plots', 'calc', 'd:arr1 h:arr1 e:arr1 n:int m:str', '''
pdf_graph(d, n)
pdf_graph(d, n, True)
return generalized_histogram_disp(h, e, False, False, m)
''')
Client('vectors', 'calc', 'v:arr2 x:arr1 l:str ar:arr2 c:float', '''
plot_vectors(v, x, l, common_scale=c, arrows=ar)
plot_vectors(v, x, l, ytick_dens=4, unit_str=l)
''')
SC = 't:arr2 p:arr2 d:arr2@t c:arr1@p:arr2 k:int '
for comp in (False, True):
    cs = 'c' if comp else 'None'
    w = ', companions' * comp
    Client('neighbours' + w, 'calc', SC + 'r:float', '''
return select_neighbs(t, p, None, k, %s), select_neighbs(t, p, r, None, %s)
''' % (cs, cs))
    for m in ('inv', 'rbf', 'corrfun'):
        mkip = "ip = interpolant(%r, k, None, %s)\n" % (
            m, {'inv': 1.5, 'rbf': 1e5, 'corrfun': '(h, g)'}[m])
        prm = SC + ('h:arr1 g:arr1 ' if m == 'corrfun' else '')
        Client('interpolation %s: at once%s' % (m, w), 'calc', prm, mkip + '''
return ip(t, p, d, %s)
''' % cs)
        Client('interpolation %s: in steps%s' % (m, w), 'calc', prm, mkip + '''
ip.set_scene(t, p, d, %s)
return ip.interpolate(), ip.current_dists()
''' % cs)
    Client('interpolation: parts' + w, 'calc', SC, '''
ip = interpolant('inv', k, None, 1.5)
ip.set_field_positions(t)
ip.set_interp_points(p, %s)
ip.set_data_on_current_field(d)
return (ip.interpolate(), ip.current_relative_positions(),
        ip.current_active_neighbs(), ip.current_data(),
        ip.field_positions(), ip.eulerian_jacobian())
''' % cs)
    Client('interpolation rbf: parts' + w, 'calc', SC + 'e:float', '''
ip = interpolant('rbf', k, None, 1e5)
ip.set_field_positions(t)
ip.set_interp_points(p, %s)
ip.set_data_on_current_field(d)
return ip.eulerian_jacobian(None, e), ip.interpolate()
''' % cs)
    Client('interpolation: trimmed points' + w, 'calc', SC + 'z:barr1@p:arr2',
           '''
ip = interpolant('inv', k, None, 1.5)
ip.set_scene(t, p, d, %s)
ip.interpolate()
ip.trim_points(z)
return ip.interpolate()
''' % cs)
    Client('interpolation: some points' + w, 'calc', SC + 'z:barr1@p:arr2', '''
ip = interpolant('inv', k, None, 1.5)
ip.set_scene(t, p, d, %s)
return ip.interpolate(z)
''' % cs)
    Client('distances of neighbours' + w, 'calc', SC, '''
ip = interpolant('inv', k, None, 1.5)
return ip.neighb_dists(t, p, %s)
''' % cs)
Client('weighted means', 'calc', 'ds:arr2 u:arr2 d:arr2 x:arr2 h:arr1 g:arr1',
       '''
return corrfun_interp(ds, u, d, h, g), rbf_interp(x, ds, u, d)
''')
SQ = 'a:int b:int r:float q: pt:str tt:str n:int '
SM = 's = Sequence((a, b), r, Particle(q, q), pt, tt, False, n)\n'
Client('sequence: frames', 'calc', SQ, SM + '''
return [(f.tracers, n.particles) for f, n in s]
''', READ)
Client('sequence: trajectories', 'calc', SQ, SM + '''
return s.particle_trajectories(), s.tracer_trajectories(), s.subrange()
''', READ)
Client('sequence: a part', 'calc', SQ + 'c:int d:int', SM + '''
return [f.tracers.pos() for f, n in s.iter_subrange(c, d)]
''', READ)
Client('sequence: a function of trajectories', 'calc', SQ + 'f: g:tuple', SM +
       '''
return s.map_trajectories(f), s.map_trajectories(f, history=True, args=g)
''', READ)
# ------------------------------------------------- with and without options
Client('trajectories in a frame, times or not', 'data',
       'trs:trajs f:int st:opt en:opt', '''
return trajectories_in_frame(trs, f), trajectories_in_frame(trs, f, st, en)
''')
for fmt in ('mat', 'npz', 'acc', 'xuap', 'ptvis', 'hdf'):
    Client('trajectories of format %s, options' % fmt, 'read',
           'fn:str a:opt b:opt m:opt', '''
return list(trajectories(fn, a, b, 500., %r, m, True)), trajectories(
    fn, a, b, 500., %r, m)
''' % (fmt, fmt))
Client('trajectories by reader, options', 'read',
       'fn:str a:opt b:opt m:opt', '''
x = trajectories_ptvis(fn, a, b, traj_min_len=m)
return x, trajectories_acc(fn, a, b), load_trajectories(fn, a, b), \\
    trajectories_table(fn, a, b), trajectories_mat(fn)
''')
Client('frame files, options', 'read', 'fn:str s:int a:opt b:opt', '''
fmt = np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8')])
return [t for n, t in FramesIterator(fn, fmt, s, a, b)]
''')
Client('save a table, options', 'write', 'fn:str trs:trajs n:opt',
       'return save_particles_table(fn, trs, n)')
Client('analysis over a range or not', 'write',
       'sc: fn:str conf:str ans:list r:opt', '''
return analysis(sc, fn, conf, ans, r)
''')
Client('scene: options', 'scene', 'fn:str a:opt b:opt k:list', '''
s = Scene(fn)
x = (s.frame_range(), s.keys(), s.shapes(), s.bounding_box(),
     s.collect(k), s.trajectory_tags(), list(s.iter_trajectories()))
s.set_frame_range((a, b))
y = (s.frame_range(), s.collect(k), list(s.iter_trajectories()),
     [f.pos() for f in s.iter_frames()],
     [f.pos() for f, n in s.iter_segments()], s.trajectory_by_id(3))
s.set_frame_range(None)
return x, y, s.collect(k)
''')
Client('dual scene: options', 'scene', 'tr:str pt:str r:float q: a:int b:int',
       '''
s = DualScene(tr, pt, r, q)
x = [f.tracers.pos() for f in s.iter_frames()]
y = [f.tracers.pos() for f in s.iter_frames((a, b))]
z = [f.tracers.pos() for f in s.iter_frames(None)]
u = [f.tracers.pos() for f, n in s.iter_segments((a, b))]
v = [f.tracers.pos() for f, n in s.iter_segments(None)]
return x, y, z, u, v, s.get_range()
''')
Client('analysed scene: options', 'scene', 'fn:str k:list',
       'return AnalysedScene(fn).collect(k)')
for m in ('inv', 'rbf', 'corrfun'):
    ip = "ip = interpolant(%r, *[%%s]%s)\n" % (
        m, ', param=(h, g)' if m == 'corrfun' else '')
    pr = 't:arr2 p:arr2 d:arr2@t c:opt k:int z:barr1@p:arr2 r:float' + (
        ' h:arr1 g:arr1' if m == 'corrfun' else '')
    Client('interpolation %s: defaults' % m, 'calc', pr, ip % '' + '''
x = ip(t, p, d)
y = ip(t, p, d, c)
ip.set_scene(t, p)
ip.set_data_on_current_field(d)
return x, y, ip.interpolate(), ip.eulerian_jacobian(), ip.num_neighbs(), \\
    ip.radius(), ip.current_dists(), ip.current_relative_positions()
''')
    Client('interpolation %s: in a radius' % m, 'calc', pr,
           ip % 'None, r' + '''
x = ip(t, p, d)
ip.set_scene(t, p, d)
return x, ip.interpolate(), ip.eulerian_jacobian()
''')
    Client('interpolation %s: trimmed at once' % m, 'calc', pr,
           ip % 'k' + '''
ip.set_scene(t, p, d)
%sip.trim_points(z)
return ip.interpolate(), ip.current_dists(), ip.current_active_neighbs(), \\
    ip.current_relative_positions(), ip.eulerian_jacobian()
''' % ('' if m != 'inv' else 'ip.current_dists()\n'))
    Client('interpolation %s: parts again' % m, 'calc', pr, ip % 'k' + '''
ip.set_scene(t, p, d, c)
ip.interpolate()
ip.set_field_positions(t)
ip.set_data_on_current_field(d)
x = ip.interpolate()
ip.set_interp_points(p)
return x, ip.interpolate(), ip.current_active_neighbs()
''')
    Client('interpolation %s: configuration' % m, 'conf', pr + ' cfg:cfg',
           ip % 'k' + '''
ip.save_config(cfg)
''')
Client('selection of neighbours, options', 'calc',
       't:arr2 p:arr2 r:opt k:opt c:opt',
       'return select_neighbs(t, p, r, k, c)')
Client('plots, options', 'calc',
       'd:arr1 h:arr1 e:arr1 n:int m:str v:arr2 l:str y:opt f:opt', '''
pdf_graph(d, n)
plot_vectors(v, d, l)
plot_vectors(v, d, l, ytick_dens=y, yticks_format=f, unit_str=m)
generalized_histogram_disp(h, e)
''')
Client('sequence: options', 'calc', 'a:int b:int r:float q: pt:str tt:str f:',
       '''
s = Sequence((a, b), r, Particle(q, q), pt, tt)
x = [(f.tracers, n.particles) for f, n in s]
return x, s.subrange(), s.map_trajectories(f), s.range(), \\
    s.particle_trajectories(), s.tracer_trajectories()
''', READ)
Client('sequence of a configuration, used', 'read', 'fn:str sm:opt ml:opt',
       '''
s = read_sequence(fn, sm, ml)
return [(f.tracers, n.particles) for f, n in s]
''', READ)


_one = {}
_of = [None]


def run(sources, c):
    from vsa.engine import analyse
    if _of[0] is not sources:
        _one.clear()
        _of[0] = sources
    k = c
    if k in _one:
        return _one[k]
    params = []
    for p in c.params.split():
        n, _, kd = p.partition(':')
        params.append((n, kd or None))
    try:
        r = analyse(sources, c.text, params, name='go', opaque=c.opaque)
    except RecursionError:
        r = 'recursion'
    except Exception as e:
        r = '%s: %s' % (type(e).__name__, e)
    _one[k] = r
    return r
