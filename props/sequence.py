from vsa.oblig import Ob

IMP = '''
from flowtracks.sequence import Sequence, read_sequence
from flowtracks.particle import Particle
from flowtracks.io import trajectories, infer_format
from flowtracks.trajectory import Frame, take_snapshot, trajectories_in_frame
'''
OP = {'flowtracks.io.trajectories': '[traj]',
      'flowtracks.io.infer_format': 'str'}
OPF = dict(OP)
OPF.update({'flowtracks.trajectory.take_snapshot': 'snap',
            'flowtracks.trajectory.trajectories_in_frame': 'list'})
SEQ = '''
def read(tmpl, a, b, r, n):
    return trajectories(tmpl, a, b, r, infer_format(tmpl), n)

def frames(trs, first, last):
    starts = np.array([t.time()[0] for t in trs])
    ends = np.array([t.time()[-1] for t in trs])
    schema = trs[0].schema()
    out = []
    for f in range(first, last):
        here = [trs[i] for i in trajectories_in_frame(
            trs, f, starts, ends, segs=True)]
        out.append((take_snapshot(here, f, schema),
                    take_snapshot(here, f + 1, schema)))
    return out
'''
ARGS = 'a:int b:int r:float p: pt:str tt:str n:int'
MK = 'Sequence((a, b), r, p, pt, tt, False, n)'
A7 = 'a, b, r, p, pt, tt, n'

Ob('Q01', 'frames and their next ones', ARGS, IMP + SEQ + '''
def impl(%s):
    return [(f.tracers, f.particles, n.tracers, n.particles)
        for f, n in %s]
def spec(%s):
    x = frames(read(tt, a, b, r, n), a, b)
    y = frames(read(pt, a, b, r, n), a, b)
    return [(x[i][0], y[i][0], x[i][1], y[i][1]) for i in range(b - a)]
''' % (A7, MK, A7), opaque=OPF)
for _n, _k, _t, _w in (('tracers of the frame', 0, 'tt', 'f.tracers'),
                       ('particles of the frame', 0, 'pt', 'f.particles'),
                       ('tracers of the next frame', 1, 'tt', 'n.tracers'),
                       ('particles of the next frame', 1, 'pt',
                        'n.particles')):
    Ob('Q01', _n, ARGS, IMP + SEQ + '''
def impl(%s):
    return [%s for f, n in %s]
def spec(%s):
    return [x[%d] for x in frames(read(%s, a, b, r, n), a, b)]
''' % (A7, _w, MK, A7, _k, _t), opaque=OPF)
Ob('Q01', 'iteration can be repeated', ARGS, IMP + SEQ + '''
def impl(%s):
    s = %s
    for f, n in s:
        pass
    return [(f.tracers, f.particles) for f, n in s]
def spec(%s):
    x = frames(read(tt, a, b, r, n), a, b)
    y = frames(read(pt, a, b, r, n), a, b)
    return [(x[i][0], y[i][0]) for i in range(b - a)]
''' % (A7, MK.replace(', n)', ', n)'), A7), opaque=OPF)
Ob('Q01', 'the range is as before', ARGS + ' c:int d:int', IMP + '''
def impl(%s, c, d):
    s = %s
    for f, n in s.iter_subrange(c, d):
        pass
    return s.range()
def spec(%s, c, d):
    return a, b
''' % (A7, MK, A7), opaque=OPF)
Ob('Q01', 'frames of another range', ARGS + ' c:int d:int', IMP + SEQ + '''
def impl(%s, c, d):
    return [(f.tracers, f.particles, n.tracers, n.particles)
        for f, n in %s.iter_subrange(c, d)]
def spec(%s, c, d):
    x = frames(read(tt, a, b, r, n), c, d)
    y = frames(read(pt, a, b, r, n), c, d)
    return [(x[i][0], y[i][0], x[i][1], y[i][1]) for i in range(d - c)]
''' % (A7, MK, A7), opaque=OPF)
Ob('Q01', 'the whole frames, from the trajectories', ARGS, IMP + SEQ + '''
def impl(%s):
    return [f.particles for f, n in %s]
def spec(%s):
    return [x[0] for x in frames(read(pt, a, b, r, n), a, b)]
''' % (A7, MK, A7), opaque=OP)

Ob('Q02', 'selectors are applied to what was read', ARGS + ' f: g:',
   IMP + SEQ + '''
def impl(%s, f, g):
    s = %s
    s.set_particle_selector(lambda trs: [t for t in trs if len(t) > 3])
    s.set_tracer_selector(lambda trs: trs[1:])
    return s.particle_trajectories(), s.tracer_trajectories()
def spec(%s, f, g):
    return [t for t in read(pt, a, b, r, n) if len(t) > 3], \\
        read(tt, a, b, r, n)[1:]
''' % (A7, MK, A7), opaque=OP)
Ob('Q02', 'without selectors everything read is used', ARGS, IMP + SEQ + '''
def impl(%s):
    s = %s
    return s.particle_trajectories(), s.tracer_trajectories()
def spec(%s):
    return read(pt, a, b, r, n), read(tt, a, b, r, n)
''' % (A7, MK, A7), opaque=OP)
Ob('Q02', 'a new selector replaces cached trajectories', ARGS,
   IMP + SEQ + '''
def impl(%s):
    s = %s
    old = len(s.particle_trajectories()) + len(s.tracer_trajectories())
    s.set_particle_selector(lambda trs: trs[2:])
    s.set_tracer_selector(lambda trs: trs[1:])
    return s.particle_trajectories(), s.tracer_trajectories()
def spec(%s):
    return read(pt, a, b, r, n)[2:], read(tt, a, b, r, n)[1:]
''' % (A7, MK, A7), opaque=OP)
Ob('Q02', 'frames come from the selected trajectories', ARGS,
   IMP + SEQ + '''
def impl(%s):
    s = %s
    s.set_particle_selector(lambda trs: trs[2:])
    s.set_tracer_selector(lambda trs: trs[1:])
    return [(f.tracers, f.particles, n.tracers, n.particles) for f, n in s]
def spec(%s):
    x = frames(read(tt, a, b, r, n)[1:], a, b)
    y = frames(read(pt, a, b, r, n)[2:], a, b)
    return [(x[i][0], y[i][0], x[i][1], y[i][1]) for i in range(b - a)]
''' % (A7, MK, A7), opaque=OPF)
Ob('Q02', 'frames follow a change of selectors', ARGS, IMP + SEQ + '''
def impl(%s):
    s = %s
    for f, n in s:
        pass
    s.set_particle_selector(lambda trs: trs[2:])
    s.set_tracer_selector(lambda trs: trs[1:])
    return [(f.tracers, f.particles, n.tracers, n.particles) for f, n in s]
def spec(%s):
    x = frames(read(tt, a, b, r, n)[1:], a, b)
    y = frames(read(pt, a, b, r, n)[2:], a, b)
    return [(x[i][0], y[i][0], x[i][1], y[i][1]) for i in range(b - a)]
''' % (A7, MK, A7), opaque=OPF)
Ob('Q02', 'names and formats', ARGS, IMP + '''
def impl(%s):
    s = %s
    return s.part_fname(), s.part_format(), s.range(), s.part, s.frate
def spec(%s):
    return pt, infer_format(pt), (a, b), p, r
''' % (A7, MK, A7), opaque=OP)

MAP = '''
def results(trs, frs, sq, func, lo, hi, history, args):
    res = {}
    first = {}
    for tr in trs:
        t = tr.time()[:-1]
        inside = (t >= lo) & (t < hi)
        if inside.sum() < 1:
            continue
        res[tr.trajid()] = [None] * inside.sum()
        first[tr.trajid()] = t[inside][0]
    for f, n in frs:
        if history:
            got = func(sq, f, n, res, *args)
        else:
            got = func(sq, f, n, *args)
        for k, v in got.items():
            res[k][int(f.particles.time() - first[k])] = v
    for k in res.keys():
        res[k] = np.array(res[k])
    return res
'''
for _h in ('False', 'True'):
    Ob('Q03', 'results by trajectory and time%s' % (
        ', with history' if _h == 'True' else ''),
       ARGS + ' func: x: c:int d:int', IMP + SEQ + MAP + '''
def impl(%s, func, x, c, d):
    s = %s
    return s.map_trajectories(func, (c, d), history=%s, args=(x,))
def spec(%s, func, x, c, d):
    s = %s
    return results(s.particle_trajectories(), s.iter_subrange(c, d), s, func,
        c, d, %s, (x,))
''' % (A7, MK, _h, A7, MK, _h), opaque=OPF)
Ob('Q03', 'results over the whole range', ARGS + ' func:', IMP + SEQ + MAP +
   '''
def impl(%s, func):
    s = %s
    return s.map_trajectories(func)
def spec(%s, func):
    s = %s
    return results(s.particle_trajectories(), s.iter_subrange(a, b), s, func,
        a, b, False, ())
''' % (A7, MK, A7, MK), opaque=OPF)
Ob('Q03', 'calls of the function', ARGS + ' func: x: c:int d:int',
   IMP + SEQ + MAP + '''
def impl(%s, func, x, c, d):
    s = %s
    s.map_trajectories(func, (c, d), args=(x,))
def spec(%s, func, x, c, d):
    s = %s
    for f, n in s.iter_subrange(c, d):
        func(s, f, n, x)
''' % (A7, MK, A7, MK), opaque=OPF, events=[('call', 'func')])
Ob('Q04', 'range of the selected trajectories', ARGS, IMP + SEQ + '''
def impl(%s):
    return %s.subrange()
def spec(%s):
    trs = read(pt, a, b, r, n)
    lo = np.array([t.time().min() for t in trs])
    hi = np.array([t.time().max() for t in trs])
    return max(lo.min(), a), min(hi.max(), b)
''' % (A7, MK, A7), opaque=OP)
Ob('Q04', 'range of trajectories a selector leaves', ARGS + ' func:',
   IMP + SEQ + '''
def impl(%s, func):
    s = %s
    s.set_particle_selector(func)
    return s.subrange()
def spec(%s, func):
    trs = func(read(pt, a, b, r, n))
    lo = np.array([t.time().min() for t in trs])
    hi = np.array([t.time().max() for t in trs])
    return max(lo.min(), a), min(hi.max(), b)
''' % (A7, MK, A7), opaque=OP)

# --------------------------------------------------------------- W04
Ob('W04', 'every option of a sequence is written', ARGS + ' sm:bool',
   IMP + '''
def impl(%s, sm):
    cfg = ConfigParser()
    Sequence((a, b), r, Particle(1., 2.), pt, tt, sm, n).save_config(cfg)
    return [cfg.get(*k) for k in KEYS]
def spec(%s, sm):
    return [str(1.), str(2.), str(r), str(a), str(b - 1),
        'yes' if sm else 'no', str(n), tt, pt]
KEYS = [('Particle', 'diameter'), ('Particle', 'density'),
    ('Scene', 'frame rate'), ('Scene', 'first frame'),
    ('Scene', 'last frame'), ('Scene', 'apply smoothing'),
    ('Scene', 'trajectory minimal length'), ('Scene', 'tracers file'),
    ('Scene', 'particles file')]
''' % (A7, A7), opaque=OP)
Ob('W04', 'options are read from a configuration', 'fn:str sm:opt ml:opt',
   IMP + '''
def impl(fn, sm, ml):
    s = read_sequence(fn, sm, ml)
    return (s.range(), s.frate, s.part.diam, s.part.density,
        s.part_fname())
def spec(fn, sm, ml):
    c = ConfigParser()
    c.read(fn)
    return ((c.getint('Scene', 'first frame'),
        c.getint('Scene', 'last frame') + 1),
        c.getfloat('Scene', 'frame rate'),
        c.getfloat('Particle', 'diameter'),
        c.getfloat('Particle', 'density'),
        c.get('Scene', 'particles file'))
''', opaque=OP)
Ob('W04', 'trajectories read by a configured sequence', 'fn:str ml:opt',
   IMP + SEQ + '''
def impl(fn, ml):
    s = read_sequence(fn, False, ml)
    return s.particle_trajectories(), s.tracer_trajectories()
def spec(fn, ml):
    c = ConfigParser()
    c.read(fn)
    if ml is None:
        if c.has_option('Scene', 'trajectory minimal length'):
            ml = c.getint('Scene', 'trajectory minimal length')
        else:
            ml = 0
    a = c.getint('Scene', 'first frame')
    b = c.getint('Scene', 'last frame') + 1
    r = c.getfloat('Scene', 'frame rate')
    return read(c.get('Scene', 'particles file'), a, b, r, ml), \\
        read(c.get('Scene', 'tracers file'), a, b, r, ml)
''', opaque=OP)
Ob('W04', 'smoothing: the argument overrides the file', 'fn:str sm:opt',
   IMP + '''
def impl(fn, sm):
    cfg = ConfigParser()
    read_sequence(fn, sm).save_config(cfg)
    return cfg.get('Scene', 'apply smoothing')
def spec(fn, sm):
    c = ConfigParser()
    c.read(fn)
    if sm is None:
        if c.has_option('Scene', 'apply smoothing'):
            sm = c.getboolean('Scene', 'apply smoothing')
        else:
            sm = False
    return 'yes' if sm else 'no'
''', opaque=OP)
Ob('W04', 'what is written is read back', ARGS + ' sm:bool', IMP + '''
def impl(%s, sm):
    cfg = ConfigParser()
    Sequence((a, b), r, Particle(1., 2.), pt, tt, sm, n).save_config(cfg)
    with open('x.cfg', 'w') as f:
        cfg.write(f)
    s = cfg
    return ((cfg.getint('Scene', 'first frame'),
        cfg.getint('Scene', 'last frame') + 1),
        cfg.get('Scene', 'tracers file'), cfg.get('Scene', 'particles file'),
        cfg.getint('Scene', 'trajectory minimal length'),
        cfg.getboolean('Scene', 'apply smoothing'))
def spec(%s, sm):
    return (a, b), tt, pt, n, sm
''' % (A7, A7), opaque=OP)
