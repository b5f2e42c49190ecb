from vsa.oblig import Ob

IMP = '''
from flowtracks.interpolation import interpolant, select_neighbs, \\
    corrfun_interp, rbf_interp, GeneralInterpolant, \\
    InverseDistanceWeighter, read_interpolant
from scipy.spatial import cKDTree
'''
NEI = '''
def neighbours(tr, pts, radius, k, comp):
    d = np.linalg.norm(tr[None, :, :] - pts[:, None, :], axis=2)
    d[d <= 0] = np.inf
    if comp is not None:
        inside = comp >= 0
        d[np.nonzero(inside)[0], comp[inside]] = np.inf
    if radius is None:
        use = np.zeros(d.shape, dtype=bool)
        use[np.repeat(np.arange(pts.shape[0]), min(k, tr.shape[0])),
            np.argsort(d, axis=1)[:, :k].flatten()] = True
        use[np.isinf(d)] = False
    else:
        use = d < radius
    d[np.isinf(d)] = 0.
    return d, use
'''
SC = 't:arr2 p:arr2 d:arr2@t c:arr1@p:arr2 k:int '
CL = '''
class Near(object):
    """What the query for the nearest neighbours is to find."""
    def __init__(self, tr, pts, k, bound, comp):
        tr = np.atleast_2d(tr)
        pts = np.atleast_2d(pts)
        n = tr.shape[0]
        d, who = cKDTree(tr).query(pts, k + 2, distance_upper_bound=bound)
        out = d <= 0
        if comp is not None:
            out = out | (who == comp[:, None])
        d[out] = np.inf
        who[out] = n
        near = np.argsort(d, axis=1, kind='stable')[:, :k]
        self.d = np.take_along_axis(d, near, axis=1)
        self.who = np.take_along_axis(who, near, axis=1)
        self.n, self.tr, self.pts = n, tr, pts

    def matched(self, data):
        out = np.zeros(self.who.shape + (data.shape[1],))
        has = self.who < self.n
        out[has] = data[self.who[has]]
        return out
'''
# ---------------------------------------------------------------- exclusion
for nm, args, sargs in [
        ('nearest', 't, p, None, k', 't, p, None, k, None'),
        ('in a radius', 't, p, r', 't, p, r, None, None'),
        ('a radius has precedence', 't, p, r, k', 't, p, r, k, None'),
        ('nearest, without companions', 't, p, None, k, c',
         't, p, None, k, c'),
        ('in a radius, without companions', 't, p, r, None, c',
         't, p, r, None, c')]:
    Ob('I01', 'selection: ' + nm, SC + 'r:float', IMP + NEI + '''
def impl(t, p, d, c, k, r):
    return select_neighbs(%s)
def spec(t, p, d, c, k, r):
    return neighbours(%s)
''' % (args, sargs))
for cnm, cc, mk_ in [('inverse distance', 'None', "interpolant('inv', k%s)"),
                     ('radial basis functions', 'None',
                      "interpolant('rbf', k%s)")]:
    for nm, rad, bnd in [('nearest', '', 'np.inf'),
                         ('in a radius', ', r', 'r')]:
        for wc in ('', ', c'):
            Ob('I01', '%s: %s%s' % (cnm, nm, wc and ', without companions'),
               SC + 'r:float', IMP + CL + '''
def impl(t, p, d, c, k, r):
    ip = %s
    ip.set_scene(t, p, d%s)
    return ip.current_dists(), ip.current_active_neighbs()
def spec(t, p, d, c, k, r):
    s = Near(t, p, k, %s, %s)
    return s.d, s.who
''' % (mk_ % rad, wc, bnd, wc.strip(', ') or 'None'))

# ------------------------------------------------------- derived quantities
Ob('I07', 'relative positions of the neighbours', SC, IMP + CL + '''
def impl(t, p, d, c, k):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d, c)
    return ip.current_relative_positions()
def spec(t, p, d, c, k):
    s = Near(t, p, k, np.inf, c)
    return s.matched(t) - p[:, None, :]
''')
Ob('I01', 'distances to the neighbours used', SC, IMP + NEI + '''
def impl(t, p, d, c, k):
    return interpolant('inv', k).neighb_dists(t, p, c)
def spec(t, p, d, c, k):
    ds, use = neighbours(t, p, None, k, c)
    out = np.zeros((p.shape[0], min(t.shape[0], k)))
    for i in range(p.shape[0]):
        out[i, :use[i].sum()] = ds[i, use[i]]
    return out
''')
# ------------------------------------------------------------------ weights
W = CL + '''
def weights(d, who, par, n):
    w = d ** -par
    w[who == n] = 0.
    return w
def average(w, data):
    return (w[..., None] * data).sum(axis=1) / w.sum(axis=1)[:, None]
'''
Ob('I03', 'weights of an inverse power of distance', SC + 'q:float w:arr2 '
   'u:arr2', IMP + W + '''
def impl(t, p, d, c, k, q, w, u):
    ip = interpolant('inv', k, param=q)
    ip.set_scene(t, p)
    return ip.weights(w, u)
def spec(t, p, d, c, k, q, w, u):
    return weights(w, u, q, t.shape[0])
''')
Ob('I03', 'the default power is 1', SC + 'w:arr2 u:arr2', IMP + W + '''
def impl(t, p, d, c, k, w, u):
    ip = interpolant('inv', k)
    ip.set_scene(t, p)
    return ip.weights(w, u)
def spec(t, p, d, c, k, w, u):
    return weights(w, u, 1, t.shape[0])
''')
for nm, make, q, bnd in [
        ('nearest', "interpolant('inv', k, None, q)", 'q', 'np.inf'),
        ('in a radius', "interpolant('inv', k, r, q)", 'q', 'r'),
        ('default power', "interpolant('inv', k)", '1', 'np.inf')]:
    for wc in ('', ', c'):
        Ob('I03', 'interpolation %s%s' % (nm, wc and ' with companions'),
           SC + 'q:float r:float', IMP + W + '''
def impl(t, p, d, c, k, q, r):
    ip = %s
    ip.set_scene(t, p, d%s)
    return ip.interpolate()
def spec(t, p, d, c, k, q, r):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    s = Near(t, p, k, %s, %s)
    return average(weights(s.d, s.who, %s, s.n), s.matched(d))
''' % (make, wc, bnd, wc.strip(', ') or 'None', q))
Ob('I03', 'interpolation with four neighbours by default', SC, IMP + W + '''
def impl(t, p, d, c, k):
    ip = interpolant('inv')
    ip.set_scene(t, p, d, c)
    return ip.interpolate()
def spec(t, p, d, c, k):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    s = Near(t, p, 4, np.inf, c)
    return average(weights(s.d, s.who, 1, s.n), s.matched(d))
''')
Ob('I03', 'interpolation with another selection', SC + 'u:arr2', IMP + W + '''
def impl(t, p, d, c, k, u):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d, c)
    return ip.interpolate(u)
def spec(t, p, d, c, k, u):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    s = Near(t, p, k, np.inf, c)
    m = np.zeros(u.shape + (d.shape[1],))
    has = u < d.shape[0]
    m[has] = d[u[has]]
    return average(weights(s.d, u, 1, t.shape[0]), m)
''')
Ob('I03', 'another selection is forgotten after the call', SC + 'u:arr2',
   IMP + W + '''
def impl(t, p, d, c, k, u):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d, c)
    ip.interpolate(u)
    return ip.interpolate()
def spec(t, p, d, c, k, u):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    s = Near(t, p, k, np.inf, c)
    return average(weights(s.d, s.who, 1, s.n), s.matched(d))
''')
for nm, rad, r in [('nearest', '', 'None'), ('in a radius', ', r', 'r')]:
    for wc in ('', ', c'):
        Ob('I03', 'interpolation by a call, %s%s' % (
            nm, wc and ' with companions'), SC + 'q:float r:float',
           IMP + W + NEI + '''
def impl(t, p, d, c, k, q, r):
    return interpolant('inv', k, param=q%s)(t, p, d%s)
def spec(t, p, d, c, k, q, r):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    ds, use = neighbours(t, p, %s, k, %s)
    w = np.where(use, ds, np.inf) ** -q
    w[np.where(use, np.arange(t.shape[0])[None, :], t.shape[0])
      == t.shape[0]] = 0.
    return average(w, d[None, ...])
''' % (rad and ', radius=r', wc, r, wc.strip(', ') or 'None'))
# -------------------------------------------------------- the other methods
OTH = '''
def corr(dists, use, data, hist, bins):
    w = np.zeros(dists.shape + (data.shape[-1],))
    w[use] = hist[np.digitize(dists[use].flatten(), bins) - 1]
    return (w * data[None, ...]).sum(axis=1) / w.sum(axis=1)
def rbf(td, dists, use, data, eps):
    ker = np.exp(-td ** 2 * eps)
    co = np.zeros(dists.shape + (data.shape[-1],))
    for i in range(dists.shape[0]):
        n = np.nonzero(use[i])[0]
        co[i, n] = np.linalg.solve(ker[np.ix_(n, n)], data[n])
    return np.sum(np.exp(-dists ** 2 * eps)[..., None] * co, axis=1)
def allof(s):
    d = np.linalg.norm(s.tr[None, :, :] - s.pts[:, None, :], axis=2)
    pt, rank = np.nonzero(s.who < s.n)
    use = np.zeros(d.shape, dtype=bool)
    use[pt, s.who[pt, rank]] = True
    return d, use
'''
Ob('I04', 'correlation functions', 'ds:arr2 u:arr2 d:arr2 h:arr1 b:arr1',
   IMP + OTH + '''
def impl(ds, u, d, h, b):
    return corrfun_interp(ds, u, d, h, b)
def spec(ds, u, d, h, b):
    return corr(ds, u, d, h, b)
''')
Ob('I04', 'radial basis functions', 'td:arr2 ds:arr2 u:arr2@ds:arr2 d:arr2@td:arr2 e:float',
   IMP + OTH + '''
def impl(td, ds, u, d, e):
    return rbf_interp(td, ds, u, d, e)
def spec(td, ds, u, d, e):
    return rbf(td, ds, u, d, e)
''')
Ob('I04', 'radial basis functions, default parameter',
   'td:arr2 ds:arr2 u:arr2@ds:arr2 d:arr2@td:arr2', IMP + OTH + '''
def impl(td, ds, u, d):
    return rbf_interp(td, ds, u, d)
def spec(td, ds, u, d):
    return rbf(td, ds, u, d, 1e-2)
''')
for wc in ('', ', c'):
    w = wc.strip(', ') or 'None'
    Ob('I04', 'rbf on a scene' + (wc and ' with companions'),
       SC + 'e:float', IMP + CL + NEI + OTH + '''
def impl(t, p, d, c, k, e):
    ip = interpolant('rbf', k, param=e)
    ip.set_scene(t, p, d%s)
    return ip.interpolate()
def spec(t, p, d, c, k, e):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    ds, use = allof(Near(t, p, k, np.inf, %s))
    return rbf(neighbours(t, t, None, k, None)[0], ds, use, d, e)
''' % (wc, w))
    Ob('I04', 'rbf by a call' + (wc and ' with companions'),
       SC + 'e:float', IMP + NEI + OTH + '''
def impl(t, p, d, c, k, e):
    return interpolant('rbf', k, param=e)(t, p, d%s)
def spec(t, p, d, c, k, e):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    ds, use = neighbours(t, p, None, k, %s)
    return rbf(neighbours(t, t, None, k, None)[0], ds, use, d, e)
''' % (wc, w))
    Ob('I04', 'corrfun on a scene' + (wc and ' with companions'),
       SC + 'fn:str', IMP + CL + OTH + '''
def impl(t, p, d, c, k, fn):
    ip = interpolant('corrfun', k, param=fn)
    ip.set_scene(t, p, d%s)
    return ip.interpolate()
def spec(t, p, d, c, k, fn):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    f = np.load(fn)
    ds, use = allof(Near(t, p, k, np.inf, %s))
    return corr(ds, use, d, f['corrs'], f['bins'])
''' % (wc, w))
    Ob('I04', 'corrfun by a call' + (wc and ' with companions'),
       SC + 'fn:str', IMP + NEI + OTH + '''
def impl(t, p, d, c, k, fn):
    return interpolant('corrfun', k, param=fn)(t, p, d%s)
def spec(t, p, d, c, k, fn):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    f = np.load(fn)
    ds, use = neighbours(t, p, None, k, %s)
    return corr(ds, use, d, f['corrs'], f['bins'])
''' % (wc, w))
# ----------------------------------------------------------------- dispatch
PAR = '''
def par(ip):
    cfg = ConfigParser()
    ip.save_config(cfg)
    return cfg.get('Interpolant', 'param')
'''
for m, k_, q in [('inv', 4, 1), ('rbf', 7, 1e5)]:
    Ob('I05', 'defaults of ' + m, 'r:float', IMP + PAR + '''
def impl(r):
    ip = interpolant(%r, radius=r)
    jp = interpolant(%r)
    return (ip.num_neighbs(), ip.radius(), par(ip), jp.num_neighbs(),
            jp.radius(), par(jp))
def spec(r):
    return %r, r, str(%r), %r, None, str(%r)
''' % (m, m, k_, q, k_, q))
Ob('I05', 'defaults of corrfun', 'fn:str', IMP + PAR + '''
def impl(fn):
    ip = interpolant('corrfun', param=fn)
    return ip.num_neighbs(), ip.radius(), par(ip)
def spec(fn):
    return 4, None, fn
''')
for m in ('inv', 'rbf', 'corrfun'):
    Ob('I05', 'parameters given for ' + m, 'k:int r:float q:str', IMP + PAR + '''
def impl(k, r, q):
    ip = interpolant(%r, k, r, q)
    return ip.num_neighbs(), ip.radius(), par(ip)
def spec(k, r, q):
    return k, r, q
''' % m)
Ob('I05', 'an unknown method is refused', 'k:int r:float', IMP + '''
def impl(k, r):
    try:
        interpolant('nosuch', k, r)
    except NotImplementedError:
        return 'refused'
    return 'accepted'
def spec(k, r):
    return 'refused'
''')
Ob('I05', 'corrfun needs a file', 'k:int r:float', IMP + '''
def impl(k, r):
    try:
        interpolant('corrfun', k, r)
    except ValueError:
        return 'refused'
    return 'accepted'
def spec(k, r):
    return 'refused'
''')
Ob('I05', 'selection needs a radius or a number', 't:arr2 p:arr2', IMP + '''
def impl(t, p):
    try:
        select_neighbs(t, p)
    except ValueError:
        return 'refused'
    return 'accepted'
def spec(t, p):
    return 'refused'
''')
# ---------------------------------------------------------------- no tracers
for m in ('inv', 'rbf', 'corrfun'):
    Ob('I06', 'no tracers: zeros, ' + m, 'p:arr2 d:arr2 q:str', IMP + '''
def impl(p, d, q):
    ip = interpolant(%r, 4, None, q)
    ip.set_scene(np.zeros((0, 3)), p, d)
    return ip.interpolate(), interpolant(%r, 4, None, q)(
        np.zeros((0, 3)), p, d)
def spec(p, d, q):
    return np.zeros((p.shape[0], d.shape[-1])), \\
        np.zeros((p.shape[0], d.shape[-1]))
''' % (m, m))
    for how, use in [('on a scene', 'ip.set_scene(t, p, d)\n'
                      '    ip.interpolate()'),
                     ('by a call', 'ip(t, p, d)')]:
        Ob('I06', 'no tracers: a warning, %s %s' % (m, how),
           't:arr2 p:arr2 d:arr2 q:str', IMP + '''
def impl(t, p, d, q):
    ip = interpolant(%r, 4, None, q)
    %s
def spec(t, p, d, q):
    if len(t) == 0:
        warnings.warn('')
''' % (m, use), events=[('call', 'warnings.warn', 'when')])
# ---------------------------------------------------------------- coherence
MK = {'inv': "interpolant('inv', k, None, q)",
      'rbf': "interpolant('rbf', k, None, q)",
      'corrfun': "interpolant('corrfun', k, None, q)"}
TWO = SC + 't2:arr2 p2:arr2 d2:arr2@t2 c2:arr1@p2:arr2 q:str'
TA = 't, p, d, c, k, t2, p2, d2, c2, q'
for m, make in sorted(MK.items()):
    for nm, change, now in [
            ('positions of the field',
             'ip.set_field_positions(t2)\n'
             '    ip.set_data_on_current_field(d2)', 't2, p, d2, c'),
            ('positions of the field, then points',
             'ip.set_field_positions(t2)\n'
             '    ip.set_interp_points(p2)\n'
             '    ip.set_data_on_current_field(d2)', 't2, p2, d2'),
            ('points', 'ip.set_interp_points(p2, c2)', 't, p2, d, c2'),
            ('points without companions', 'ip.set_interp_points(p2)',
             't, p2, d'),
            ('data', 'ip.set_data_on_current_field(d2)', 't, p, d2, c'),
            ('scene', 'ip.set_scene(t2, p2, d2, c2)', 't2, p2, d2, c2')]:
        Ob('I02', '%s: interpolation after a change of %s' % (m, nm), TWO,
           IMP + '''
def impl(%s):
    ip = %s
    ip.set_scene(t, p, d, c)
    ip.interpolate()
    %s
    return ip.interpolate()
def spec(%s):
    ip = %s
    ip.set_scene(%s)
    return ip.interpolate()
''' % (TA, make, change, TA, make, now))
        if m != 'inv':
            continue
        Ob('I02', 'derivatives after a change of %s' % nm, TWO, IMP + '''
def impl(%s):
    ip = %s
    ip.set_scene(t, p, d, c)
    ip.eulerian_jacobian()
    %s
    return ip.eulerian_jacobian()
def spec(%s):
    ip = %s
    ip.set_scene(%s)
    return ip.eulerian_jacobian()
''' % (TA, make, change, TA, make, now))
        Ob('I02', 'neighbours after a change of %s' % nm, TWO, IMP + '''
def impl(%s):
    ip = %s
    ip.set_scene(t, p, d, c)
    ip.interpolate()
    %s
    return (ip.current_dists(), ip.current_active_neighbs(),
        ip.current_relative_positions(), ip.current_data(),
        ip.field_positions())
def spec(%s):
    ip = %s
    ip.set_scene(%s)
    return (ip.current_dists(), ip.current_active_neighbs(),
        ip.current_relative_positions(), ip.current_data(),
        ip.field_positions())
''' % (TA, make, change, TA, make, now))
for nm, dat, want in [('a column', 'x:arr1', 'x[:, None]'),
                      ('a row', 'x:arr1', 'x[None, :]')]:
    pass
Ob('I02', 'flat data are a column or a row', SC + 'x:arr1', IMP + '''
def impl(t, p, d, c, k, x):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, x, c)
    return ip.current_data()
def spec(t, p, d, c, k, x):
    if x.shape[0] == t.shape[0]:
        return x[:, None]
    return x[None, :]
''')
# ----------------------------------------------------------------- trimming
TRIM = W + '''
class Trimmed(Near):
    def __init__(self, tr, pts, k, comp, w):
        Near.__init__(self, tr, pts, k, np.inf, comp)
        self.d, self.who = self.d[~w], self.who[~w]
        self.pts = self.pts[~w]
'''
for wc in ('', ', c'):
    cm = wc.strip(', ') or 'None'
    tail = wc and ' with companions'
    Ob('I07', 'trimmed: interpolation' + tail, SC + 'w:arr1', IMP + TRIM + '''
def impl(t, p, d, c, k, w):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d%s)
    ip.trim_points(w)
    return ip.interpolate()
def spec(t, p, d, c, k, w):
    if len(t) == 0:
        return np.zeros((p[~w].shape[0], d.shape[-1]))
    s = Trimmed(t, p, k, %s, w)
    n = Near(t, p, k, np.inf, %s)
    ws = weights(n.d, n.who, 1, s.n)
    return average(ws[~w], s.matched(d))
''' % (wc, cm, cm))
    Ob('I07', 'trimmed: neighbours' + tail, SC + 'w:arr1', IMP + TRIM + '''
def impl(t, p, d, c, k, w):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d%s)
    ip.trim_points(w)
    return (ip.current_dists(), ip.current_active_neighbs(),
        ip.current_relative_positions())
def spec(t, p, d, c, k, w):
    s = Trimmed(t, p, k, %s, w)
    n = Near(t, p, k, np.inf, %s)
    return s.d, s.who, (n.matched(t) - p[:, None, :])[~w]
''' % (wc, cm, cm))
    Ob('I07', 'trimmed before the neighbours are known' + tail,
       SC + 'w:arr1', IMP + CL + NEI + OTH + '''
def impl(t, p, d, c, k, w):
    ip = interpolant('rbf', k)
    ip.set_scene(t, p, d%s)
    ip.trim_points(w)
    return ip.current_dists(), ip.current_active_neighbs()
def spec(t, p, d, c, k, w):
    s = Near(t, p[~w], k, np.inf, %s)
    return s.d, s.who
''' % (wc, cm + (wc and '[~w]')))
    Ob('I07', 'trimmed and moved: companions of the new points' + tail,
       SC + 'w:arr1 p2:arr2', IMP + TRIM + '''
def impl(t, p, d, c, k, w, p2):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d%s)
    ip.trim_points(w)
    ip.set_interp_points(p2)
    return ip.current_dists(), ip.current_active_neighbs()
def spec(t, p, d, c, k, w, p2):
    s = Near(t, p2, k, np.inf, None)
    return s.d, s.who
''' % wc)
    Ob('I07', 'trimmed and the field changed' + tail,
       SC + 'w:arr1 t2:arr2 d2:arr2@t2', IMP + W + '''
def impl(t, p, d, c, k, w, t2, d2):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d%s)
    ip.interpolate()
    ip.trim_points(w)
    ip.set_field_positions(t2)
    ip.set_data_on_current_field(d2)
    return ip.interpolate()
def spec(t, p, d, c, k, w, t2, d2):
    if len(t2) == 0:
        return np.zeros((p[~w].shape[0], d2.shape[-1]))
    s = Near(t2, p[~w], k, np.inf, %s)
    return average(weights(s.d, s.who, 1, s.n), s.matched(d2))
''' % (wc, cm + (wc and '[~w]')))
Ob('I07', 'trimmed: relative data stay with their points',
   SC + 'w:arr1', IMP + TRIM + '''
def impl(t, p, d, c, k, w):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d, c)
    ip.interpolate()
    ip.eulerian_jacobian()
    ip.trim_points(w)
    return ip.eulerian_jacobian(np.zeros((2, 3)))
def spec(t, p, d, c, k, w):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d, c)
    ip.trim_points(w)
    return ip.eulerian_jacobian(np.zeros((2, 3)))
''')
# ---------------------------------------------------------------- off scene
for m, make in sorted(MK.items()):
    for nm, act in [('a call', 'ip(t2, p2, d2, c2)'),
                    ('distances', 'ip.neighb_dists(t2, p2, c2)'),
                    ('derivatives', 'ip.eulerian_jacobian()'),
                    ('reading', 'ip.current_dists()')]:
        Ob('I08', '%s leaves the scene alone, %s' % (nm, m), TWO, IMP + '''
def impl(%s):
    ip = %s
    ip.set_scene(t, p, d, c)
    %s
    return ip.interpolate(), ip.current_data(), ip.field_positions()
def spec(%s):
    ip = %s
    ip.set_scene(t, p, d, c)
    return ip.interpolate(), d, t
''' % (TA, make, act, TA, make))
        if nm == 'a call':
            Ob('I08', 'a call does not depend on the scene, %s' % m, TWO,
               IMP + '''
def impl(%s):
    ip = %s
    ip.set_scene(t, p, d, c)
    ip.interpolate()
    return ip(t2, p2, d2, c2)
def spec(%s):
    return %s(t2, p2, d2, c2)
''' % (TA, make, TA, make))
# -------------------------------------------------------------- derivatives
Ob('I09', 'analytic derivatives of inverse distances', SC + 'q:float l:arr2',
   IMP + W + '''
def impl(t, p, d, c, k, q, l):
    ip = interpolant('inv', k, None, q)
    ip.set_scene(t, p, d, c)
    return ip.eulerian_jacobian(l)
def spec(t, p, d, c, k, q, l):
    s = Near(t, p, k, np.inf, c)
    w = weights(s.d, s.who, q, s.n)
    dw = s.d ** -(q + 2)
    dw[s.who == s.n] = 0.
    rel = s.matched(t) - p[:, None, :]
    dv = s.matched(d) - l[:, None, :]
    return q / w.sum(axis=1, keepdims=True)[:, None, None, 0] * np.sum(
        dw[..., None, None] * rel[:, :, None, :] * dv[..., None], axis=1)
''')
Ob('I09', 'derivatives: interpolation is done if not given', SC + 'q:float',
   IMP + '''
def impl(t, p, d, c, k, q):
    ip = interpolant('inv', k, None, q)
    ip.set_scene(t, p, d, c)
    return ip.eulerian_jacobian()
def spec(t, p, d, c, k, q):
    ip = interpolant('inv', k, None, q)
    ip.set_scene(t, p, d, c)
    l = ip.interpolate()
    return ip.eulerian_jacobian(l)
''')
for m in ('rbf', 'corrfun'):
    for ea, eps in (('', '100e-6'), (', e', 'e')):
        Ob('I09', 'finite differences of %s%s' % (m, ea and ', given step'),
           SC + 'q:str l:arr2 e:float', IMP + '''
def impl(t, p, d, c, k, q, l, e):
    ip = %s
    ip.set_scene(t, p, d, c)
    return ip.eulerian_jacobian(l%s)
def spec(t, p, d, c, k, q, l, e):
    ip = %s
    out = np.empty((p.shape[0], 3, 3))
    for j, dx in enumerate([np.r_[%s, 0, 0], np.r_[0, %s, 0],
                            np.r_[0, 0, %s]]):
        out[:, :, j] = ip(t, p + dx, d, c)
    return (out - l[:, :, None]) / %s
''' % (MK[m], ea, MK[m], eps, eps, eps, eps))
# ------------------------------------------------------------ configuration
Ob('W05', 'the options of an interpolant are written',
   'k:int r:float q:float', IMP + '''
def impl(k, r, q):
    cfg = ConfigParser()
    interpolant('rbf', k, r, q).save_config(cfg)
    return [cfg.get('Interpolant', o) for o in
            ('num_neighbs', 'radius', 'param', 'method')]
def spec(k, r, q):
    return [str(k), str(r), str(q), 'rbf']
''')
Ob('W05', 'defaults are written, a missing radius is not', 'q:float',
   IMP + '''
def impl(q):
    cfg = ConfigParser()
    interpolant('inv').save_config(cfg)
    return [cfg.get('Interpolant', o) for o in
            ('num_neighbs', 'param', 'method')] + [
        cfg.has_option('Interpolant', 'radius')]
def spec(q):
    return ['4', '1', 'inv', False]
''')
Ob('W05', 'an option that is there and is not one of it is removed',
   'k:int r:str q:float', IMP + '''
def impl(k, r, q):
    cfg = ConfigParser()
    cfg.add_section('Interpolant')
    cfg.set('Interpolant', 'radius', r)
    cfg.set('Interpolant', 'param', r)
    interpolant('inv', k, None, q).save_config(cfg)
    return [cfg.has_option('Interpolant', o) for o in
            ('num_neighbs', 'radius', 'param', 'method')] + [
        cfg.get('Interpolant', o) for o in
            ('num_neighbs', 'param', 'method')]
def spec(k, r, q):
    return [True, False, True, True, str(k), str(q), 'inv']
''')
Ob('W05', 'options are written over those of another interpolant',
   'k:int r:float q:float n:int s:float', IMP + '''
def impl(k, r, q, n, s):
    cfg = ConfigParser()
    interpolant('rbf', n, s, s).save_config(cfg)
    interpolant('inv', k, r, q).save_config(cfg)
    return [cfg.get('Interpolant', o) for o in
            ('num_neighbs', 'radius', 'param', 'method')]
def spec(k, r, q, n, s):
    return [str(k), str(r), str(q), 'inv']
''')
Ob('W05', 'options are read from a configuration', 'fn:str', IMP + '''
def impl(fn):
    ip = read_interpolant(fn)
    return ip
def spec(fn):
    c = ConfigParser()
    c.read(fn)
    k = r = q = None
    m = c.get('Interpolant', 'method')
    if c.has_option('Interpolant', 'num_neighbs'):
        k = c.getint('Interpolant', 'num_neighbs')
    if c.has_option('Interpolant', 'radius'):
        r = c.getfloat('Interpolant', 'radius')
    if c.has_option('Interpolant', 'param'):
        if m == 'corrfun':
            q = c.get('Interpolant', 'param')
        else:
            q = c.getfloat('Interpolant', 'param')
    return interpolant(m, k, r, q)
''', opaque={'flowtracks.interpolation.interpolant': None})
# --------------------------------------------- another selection of neighbours
for m, make, kind_, res in [
        ('rbf', "interpolant('rbf', k, param=e)", 'e:float',
         'rbf(neighbours(t, t, None, k, None)[0], ds, use, d, e)'),
        ('corrfun', "interpolant('corrfun', k, param=e)", 'e:str',
         "corr(ds, use, d, np.load(e)['corrs'], np.load(e)['bins'])")]:
    Ob('I04', '%s on a scene with another selection' % m,
       SC + 'u:arr2 ' + kind_, IMP + CL + NEI + OTH + '''
def impl(t, p, d, c, k, u, e):
    ip = %s
    ip.set_scene(t, p, d, c)
    return ip.interpolate(u)
def spec(t, p, d, c, k, u, e):
    if len(t) == 0:
        return np.zeros((p.shape[0], d.shape[-1]))
    s = Near(t, p, k, np.inf, c)
    s.who = u
    ds, use = allof(s)
    return %s
''' % (make, res))
Ob('I01', 'distances to the neighbours, whatever the radius',
   SC + 'r:float', IMP + '''
def impl(t, p, d, c, k, r):
    return interpolant('inv', k, r).neighb_dists(t, p, c)
def spec(t, p, d, c, k, r):
    return interpolant('inv', k).neighb_dists(t, p, c)
''')
for m, make in sorted(MK.items()):
    Ob('I02', '%s: data given after the scene' % m, TWO, IMP + '''
def impl(%s):
    ip = %s
    ip.set_scene(t, p, companionship=c)
    ip.set_data_on_current_field(d)
    return ip.interpolate()
def spec(%s):
    ip = %s
    ip.set_scene(t, p, d, c)
    return ip.interpolate()
''' % (TA, make, TA, make))
    Ob('I02', '%s: the field forgets what was known of the old one' % m, TWO,
       IMP + '''
def impl(%s):
    ip = %s
    ip.set_scene(t, p, d, c)
    ip.interpolate()
    ip.set_scene(t2, p2, companionship=c2)
    ip.set_data_on_current_field(d2)
    return ip.interpolate()
def spec(%s):
    ip = %s
    ip.set_scene(t2, p2, d2, c2)
    return ip.interpolate()
''' % (TA, make, TA, make))
Ob('I07', 'trimmed: derivatives with data not yet matched',
   SC + 'w:arr1 y:arr2', IMP + TRIM + '''
def impl(t, p, d, c, k, w, y):
    ip = interpolant('inv', k)
    ip.set_scene(t, p, d, c)
    ip.trim_points(w)
    ip.set_data_on_current_field(d)
    return ip.eulerian_jacobian(y)
def spec(t, p, d, c, k, w, y):
    n = Near(t, p, k, np.inf, c)
    s = Trimmed(t, p, k, c, w)
    wt = weights(n.d, n.who, 1, n.n)[~w]
    der = s.d ** -3
    der[s.who == n.n] = 0.
    rel = (n.matched(t) - p[:, None, :])[~w]
    data = np.zeros(s.who.shape + (d.shape[1],))
    has = (n.who < n.n)[~w]
    data[has] = d[s.who[has]]
    return 1 / wt.sum(axis=1, keepdims=True)[:, None, None, 0] * np.sum(
        der[..., None, None] * rel[:, :, None, :] *
        (data - y[:, None, :])[..., None], axis=1)
''')
