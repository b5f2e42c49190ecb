"""
Answers do not depend on what was asked before; after a change they are those
of a new object made with the present values.
"""
from vsa.oblig import Ob
import props.scene
import props.sequence
import props.interp

IMP = '''
from flowtracks.scene import Scene, DualScene
from flowtracks.an_scene import AnalysedScene
from flowtracks.trajectory import Trajectory, ParticleSnapshot
from flowtracks.sequence import Sequence
from flowtracks.interpolation import interpolant
'''


def asked(kind, params, make, queries, **kw):
    """Each query first, after all the others, and once more."""
    names = [n.split(':')[0] for n in params.split()]
    sig = ', '.join(names)
    text = IMP + 'def make(%s):\n    return %s\n' % (sig, make)
    for i, (nm, q) in enumerate(queries):
        text += 'def q%d(o, %s):\n    return %s\n' % (i, sig, q)
    for i, (nm, q) in enumerate(queries):
        body = ''.join('    q%d(o, %s)\n' % (j, sig)
                       for j in range(len(queries)) if j != i)
        Ob('Y01', '%s: %s, asked again after all else' % (kind, nm), params,
           text + '''
def impl(%s):
    o = make(%s)
    x = q%d(o, %s)
%s    y = q%d(o, %s)
    return x, y
def spec(%s):
    return q%d(make(%s), %s), q%d(make(%s), %s)
''' % (sig, sig, i, sig, body, i, sig, sig, i, sig, sig, i, sig, sig), **kw)


def changed(prop, kind, params, make, change, after, queries, name, **kw):
    """Each query after it was asked, the change, and asked again."""
    names = [n.split(':')[0] for n in params.split()]
    sig = ', '.join(names)
    text = IMP + 'def make(%s):\n    return %s\n' % (sig, make)
    text += 'def made(%s):\n    return %s\n' % (sig, after)
    text += 'def change(o, %s):\n    %s\n' % (sig, change)
    for i, (nm, q) in enumerate(queries):
        Ob(prop, '%s: %s, asked before and after %s' % (kind, nm, name),
           params, text + '''
def q(o, %s):
    return %s
def impl(%s):
    o = make(%s)
    q(o, %s)
    change(o, %s)
    return q(o, %s)
def spec(%s):
    return q(made(%s), %s)
''' % (sig, q, sig, sig, sig, sig, sig, sig, sig, sig), **kw)


SNAP = '(%s.pos(), %s.velocity(), %s.trajid(), %s.time())'


def snap(v):
    return SNAP % (v, v, v, v)


SCENE = [
    ('range', 'o.frame_range()'),
    ('keys', 'list(o.keys())'),
    ('shapes', 'list(o.shapes())'),
    ('ids', 'o.trajectory_ids()'),
    ('tags', 'o.trajectory_tags()'),
    ('a trajectory', 'o.trajectory_by_id(i)'),
    ('trajectories', 'list(o.iter_trajectories())'),
    ('frames', 'list(o.iter_frames())'),
    ('a frame', 'o.frame_by_time(i)'),
    ('segments', 'list(o.iter_segments())'),
    ('all data', "o.collect(['pos', 'velocity'])"),
    ('one key', "o.collect(['pos'])"),
    ('selected data', "o.collect(['pos', 'time'], {'xx': (l, h, False)})"),
    ('bounding box', 'o.bounding_box()'),
]
PS = 'fn:str a:int b:int c:int d:int i:int l:float h:float'
asked('scene', PS, 'Scene(fn, (a, b))', SCENE)
asked('scene without a range', PS, 'Scene(fn)', SCENE)
for _nm, _mk, _ch, _af in (
        ('another range is set', 'Scene(fn, (a, b))',
         'o.set_frame_range((c, d))', 'Scene(fn, (c, d))'),
        ('a range is set', 'Scene(fn)',
         'o.set_frame_range((c, d))', 'Scene(fn, (c, d))'),
        ('the range is removed', 'Scene(fn, (a, b))',
         'o.set_frame_range(None)', 'Scene(fn)'),
        ('the start is removed', 'Scene(fn, (a, b))',
         'o.set_frame_range((None, d))', 'Scene(fn, (None, d))'),
        ('the end is removed', 'Scene(fn, (a, b))',
         'o.set_frame_range((c, None))', 'Scene(fn, (c, None))')):
    changed('H01', 'scene', PS, _mk, _ch, _af, SCENE, _nm)

DUAL = [
    ('path', 'o.get_particles_path()'),
    ('range', 'o.get_range()'),
    ('frames', '[(f.tracers, f.particles) for f in list(o.iter_frames())]'),
    ('frames of a range', '[(f.tracers, f.particles) '
     'for f in list(o.iter_frames((c, d)))]'),
    ('segments', '[(f.tracers, f.particles, n.tracers, n.particles) '
     'for f, n in list(o.iter_segments())]'),
    ('segments of a range',
     '[(f.tracers, f.particles, n.tracers, n.particles) '
     'for f, n in list(o.iter_segments((c, d)))]'),
    ('particles', 'list(o.get_particles().iter_frames())'),
    ('tracers', "o.get_tracers().collect(['pos'])"),
]
asked('dual scene', 'tr:str pt:str p: a:int b:int c:int d:int',
      'DualScene(tr, pt, 500., p, (a, b))', DUAL)

AN = [
    ('keys', 'list(o.keys())'),
    ('shapes', 'list(o.shapes())'),
    ('a trajectory', 'o.trajectory_by_id(i)'),
    ('trajectories', 'list(o.iter_trajectories())'),
    ('data', "o.collect(['pos', 'fluid_vel'])"),
    ('selected data', "o.collect(['pos', 'fluid_vel'], "
     "{'xx': (l, h, False)})"),
]
asked('analysed scene', 'fn:str i:int l:float h:float', 'AnalysedScene(fn)',
      AN)

SEQ = [
    ('range', 'o.range()'),
    ('subrange', 'o.subrange()'),
    ('particles', 'list(o.particle_trajectories())'),
    ('tracers', 'list(o.tracer_trajectories())'),
    ('frames', '[(f.tracers, f.particles, n.tracers, n.particles) '
     'for f, n in list(o)]'),
    ('frames of a range', '[(f.tracers, f.particles, n.tracers, '
     'n.particles) for f, n in list(o.iter_subrange(c, d))]'),
]
PQ = 'a:int b:int r:float p: pt:str tt:str n:int c:int d:int s: u:'
asked('sequence', PQ, props.sequence.MK, SEQ, opaque=props.sequence.OPF)
for _w, _s in (('particle', 's'), ('tracer', 's')):
    for _nm, _q in SEQ:
        Ob('Q02', 'sequence: %s, asked before and after another %s selector '
           'is set' % (_nm, _w), PQ, IMP + '''
def q(o, c, d):
    return %s
def impl(a, b, r, p, pt, tt, n, c, d, s, u):
    o = %s
    o.set_%s_selector(s)
    q(o, c, d)
    o.set_%s_selector(u)
    return q(o, c, d)
def spec(a, b, r, p, pt, tt, n, c, d, s, u):
    o = %s
    o.set_%s_selector(u)
    return q(o, c, d)
''' % (_q, props.sequence.MK, _w, _w, props.sequence.MK, _w),
           opaque=props.sequence.OPF)

SET = [
    ('positions', 'o.pos()'),
    ('velocities', 'o.velocity()'),
    ('some positions', 'o.pos(s)'),
    ('one position', 'o.pos(i)'),
    ('an extra property', 'o.xx()'),
    ('some of an extra property', 'o.xx(s)'),
    ('names', "[o.has_property(n) for n in ('pos', 'xx', 'yy')]"),
    ('schema', 'o.schema()'),
    ('extended schema', 'o.ext_schema()'),
    ('dictionary', 'o.as_dict()'),
    ('length', 'len(o)'),
]
TRAJ = SET + [('times', 'o.time()'), ('id', 'o.trajid()'),
              ('table', 'o[s]')]
PSN = SET + [('ids', 'o.trajid()'), ('time', 'o.time()')]
PT = ('n:int pos:arr2@n vel:arr2@n t:arr1@n x:arr1@n i:int s:slice '
      'k:arr1@n z:arr2@n y:arr2@n')
MKT = 'Trajectory(pos, vel, t, i, xx=x)'
MKS = 'ParticleSnapshot(pos, vel, i, k, xx=x)'
asked('trajectory', PT, MKT, TRAJ, concrete=True)
asked('snapshot', PT, MKS, PSN, concrete=True)
for _kd, _mk, _q in (('trajectory', MKT, TRAJ), ('snapshot', MKS, PSN)):
    changed('D01', _kd, PT, _mk, 'o.set_pos(z)', _mk.replace('pos', 'z'), _q,
            'positions are set', concrete=True)
    changed('D01', _kd, PT, _mk, 'o.set_xx(y)', _mk.replace('=x', '=y'), _q,
            'an extra property is set', concrete=True)
    changed('D01', _kd, PT, _mk, "o.create_property('yy', y)",
            _mk.replace('=x', '=x, yy=y'), _q, 'a property is added', concrete=True)

# ------------------------------------------------------------ interpolants
PI = ('t:arr2 p:arr2 d:arr2@t c:arr1@p:arr2 k:int r:float q:float '
      't2:arr2 p2:arr2 d2:arr2@t2 c2:arr1@p2:arr2 s:arr1')
INT = [
    ('values', 'o.interpolate()'),
    ('some values', 'o.interpolate(s)'),
    ('distances', 'o.current_dists()'),
    ('neighbours', 'o.current_active_neighbs()'),
    ('relative positions', 'o.current_relative_positions()'),
    ('data', 'o.current_data()'),
    ('field positions', 'o.field_positions()'),
    ('derivatives', 'o.eulerian_jacobian()'),
]
SCN = '\n'.join('''
def %s(%st, p, d, c):
    o = %s
    o.set_scene(t, p, d%s)
    return o''' % (nm, x, mk, comp)
    for nm, x, mk, comp in (
        ('inv', 'k, ', "interpolant('inv', k)", ''),
        ('invc', 'k, ', "interpolant('inv', k)", ', c'),
        ('invr', 'k, r, ', "interpolant('inv', k, r)", ', c'),
        ('rbf', 'k, ', "interpolant('rbf', k)", ', c'))) + '\n'
IMP = IMP + SCN
for _nm, _mk in (('inverse distance', 'inv(k, t, p, d, c)'),
                 ('inverse distance, companions', 'invc(k, t, p, d, c)'),
                 ('inverse distance in a radius', 'invr(k, r, t, p, d, c)'),
                 ('radial basis functions', 'rbf(k, t, p, d, c)')):
    asked(_nm, PI, _mk, INT)

# --------------------------------------------- functions, with other inputs
IMP = IMP + '''
from flowtracks.scene import gen_query_string, read_dual_scene
from flowtracks.sequence import read_sequence
from flowtracks.interpolation import select_neighbs, read_interpolant
from flowtracks.analysis import companion_indices
from flowtracks.smoothing import savitzky_golay
from flowtracks.pairs import particle_pairs
from flowtracks.graphics import pdf_bins
from flowtracks.trajectory import (take_snapshot, trajectories_in_frame,
    mark_unique_rows)
from flowtracks.io import *
from flowtracks.io import (collect_particles_mat, collect_particles_generic,
    frame_file_pattern)
'''


def again(name, call, first, second, uses='Y01', **kw):
    """A function called with some inputs, then with others."""
    ps = first + ' ' + second
    ps = ' '.join(dict.fromkeys(ps.split()))
    one = ', '.join(p.split(':')[0] for p in first.split())
    two = ', '.join(p.split(':')[0] for p in second.split())
    sig = ', '.join(p.split(':')[0] for p in ps.split())
    Ob(uses, '%s, after other inputs' % name, ps, IMP + '''
def impl(%s):
    first_ = %s(%s)
    return first_, %s(%s)
def spec(%s):
    return %s(%s), %s(%s)
''' % (sig, call, one, call, two, sig, call, one, call, two), **kw)


FR = 'fn:str a:opt b:opt'
FR2 = 'fn:str a2:opt b2:opt'
again('trajectories of trajAcc files', 'trajectories_acc', FR, FR2)
again('trajectories of ptv_is files', 'trajectories_ptvis', FR, FR2)
again('trajectories of ptv_is files of another rate', 'trajectories_ptvis',
      FR + ' w:float x:bool m:int', FR + ' w2:float x2:bool m2:int')
again('trajectories of npz files', 'load_trajectories', 'd:str a:int b:int',
      'd:str a2:int b2:int')
again('trajectories of tables', 'trajectories_table', FR, FR2)
again('trajectories of Matlab files', 'trajectories_mat', 'fn:str',
      'fn2:str')
again('trajectories of a template', 'trajectories',
      'fn:str a:int b:int r:float f:str m:int',
      'fn:str a2:int b2:int r:float f2:str m2:int')
again('trajectories of another template', 'trajectories',
      'fn:str a:int b:int r:float', 'fn2:str a:int b:int r:float')
again('the format by name', 'infer_format', 'fn:str', 'fn2:str')
again('particles of a frame', 'collect_particles', 'fn:str f:int',
      'fn:str g:int')
again('particles of segments', 'collect_particles', 'fn:str f:int sg:bool',
      'fn:str f:int sg2:bool')
again('particles of a frame of trajectories', 'collect_particles_generic',
      'trs:[traj] f:int sg:bool', 'trs:[traj] g:int sg2:bool')
again('particles of a frame of Matlab files', 'collect_particles_mat',
      'fn:str f:int sg:bool', 'fn:str g:int sg2:bool')
again('a range condition', 'gen_query_string', 'key:str v:(float,float,bool)',
      'key:str v2:(float,float,bool)')
again('a smoothed list', 'savitzky_golay', 'trs:[traj] w:float n:int o:int',
      'trs2:[traj] w:float n:int o:int')
again('a list smoothed otherwise', 'savitzky_golay',
      'trs:[traj] w:float n:int o:int', 'trs:[traj] w2:float n2:int o2:int')
again('pairs', 'particle_pairs', 'u:[traj] v:[traj] k:arr1 m:arr1',
      'u2:[traj] v2:[traj] k:arr1 m:arr1')
again('neighbours', 'select_neighbs', 't:arr2 p:arr2 r:float',
      't2:arr2 p2:arr2 r:float')
again('nearest neighbours', 'select_neighbs', 't:arr2 p:arr2 z: k:int',
      't2:arr2 p2:arr2 z: k:int')
again('trajectories in a frame', 'trajectories_in_frame',
      'trs:[traj] f:int st:arr1 en:arr1', 'trs2:[traj] g:int st2:arr1 en2:arr1')
again('trajectories in a frame, no limits given', 'trajectories_in_frame',
      'trs:[traj] f:int', 'trs2:[traj] g:int')
again('a snapshot', 'take_snapshot', 'trs:[traj] f:int sc:',
      'trs2:[traj] g:int sc:')
again('marks of unique rows', 'mark_unique_rows', 'x:arr2', 'y:arr2')
again('companions', 'companion_indices', 't:arr1 c:arr1', 't2:arr1 c2:arr1')
again('densities', 'pdf_bins', 'x:arr1 n:int lg:bool', 'y:arr1 n:int lg:bool')
again('densities with other bins', 'pdf_bins', 'x:arr1 n:int lg:bool',
      'x:arr1 n2:int lg2:bool')
again('a configured sequence', 'read_sequence', 'fn:str', 'fn2:str')
again('a configured sequence with other settings', 'read_sequence',
      'fn:str sm: m:', 'fn:str sm2: m2:')
again('a configured interpolant', 'read_interpolant', 'fn:str', 'fn2:str')
again('a configured dual scene', 'read_dual_scene', 'fn:str', 'fn2:str')
again('a configured frame', 'read_frame_data', 'fn:str', 'fn2:str',
      opaque={'flowtracks.io.trajectories': 'list',
              'flowtracks.trajectory.take_snapshot': None,
              'flowtracks.trajectory.trajectories_in_frame': 'list'})

# ------------------------------------------- two analyses with one analyser
for _nm, _mk in (('inverse distance', "interpolant('inv', k)"),
                 ('radial basis functions', "interpolant('rbf', k)")):
    Ob('A02', 'an analyser used for another frame before, %s' % _nm,
       'k:int f:frame n:frame g:frame m:frame', IMP + '''
from flowtracks.analysis import FluidVelocitiesAnalyser
def impl(k, f, n, g, m):
    a = FluidVelocitiesAnalyser(%s)
    a.analyse(g, m)
    return a.analyse(f, n)
def spec(k, f, n, g, m):
    return FluidVelocitiesAnalyser(%s).analyse(f, n)
''' % (_mk, _mk), opaque={'flowtracks.analysis.companion_indices': 'arr'})
    Ob('A02', 'an analyser used for the next frame before, %s' % _nm,
       'k:int f:frame n:frame', IMP + '''
from flowtracks.analysis import FluidVelocitiesAnalyser
def impl(k, f, n):
    a = FluidVelocitiesAnalyser(%s)
    first_ = a.analyse(f, n)
    return first_, a.analyse(n, f)
def spec(k, f, n):
    return (FluidVelocitiesAnalyser(%s).analyse(f, n),
            FluidVelocitiesAnalyser(%s).analyse(n, f))
''' % (_mk, _mk, _mk), opaque={'flowtracks.analysis.companion_indices': 'arr'})

# ---------------------- the same arrays, changed in place and set once more
for _nm, _mk in (('inv', "interpolant('inv', k)"),
                 ('rbf', "interpolant('rbf', k)")):
    for _what, _in, _set in (
            ('data', 'd[:] = d2', 'o.set_data_on_current_field(d)'),
            ('positions of the points', 'p[:] = p2',
             'o.set_interp_points(p, c)'),
            ('positions of the field', 't[:] = t2',
             'o.set_field_positions(t)'),
            ('data, by the scene', 'd[:] = d2', 'o.set_scene(t, p, d, c)'),
            ('points, by the scene', 'p[:] = p2', 'o.set_scene(t, p, d, c)'),
            ('field, by the scene', 't[:] = t2', 'o.set_scene(t, p, d, c)')):
      for _q in ('interpolate', 'eulerian_jacobian'):
        _v = _in.split('[')[0]
        Ob('I02', '%s: %s changed in place and set again%s' % (
            _nm, _what, '' if _q == 'interpolate' else ', derivatives'),
           't:arr2 p:arr2 d:arr2@t c:arr1@p:arr2 k:int %s2:arr2@%s' % (_v, _v),
           IMP + '''
def impl(t, p, d, c, k, new):
    o = %s
    o.set_scene(t, p, d, c)
    o.QUERY()
    %s
    %s
    return o.QUERY()
def spec(t, p, d, c, k, new):
    o = %s
    %s
    o.set_scene(t, p, d, c)
    return o.QUERY()
'''.replace('new', _v + '2').replace('QUERY', _q) % (_mk, _in, _set, _mk, _in))
