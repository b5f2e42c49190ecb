"""
A third set of edits that keep the behaviour.  Not read by any check.
"""
from refactors2 import S, T, I, IO, Q, A, AN, SM, P, G
REF3 = []


def f(name, *edits):
    REF3.append((name, edits))


# ------------------------------------------------------------ scene.py
f('3-fields-helper', (S, '+', '''
def _fields_except(arr, excluded):
    """Columns of a structured array as a dictionary, all but one."""
    return {field: arr[field] for field in arr.dtype.names
        if field != excluded}
'''), (S, 'Scene.trajectory_by_id', '''
def trajectory_by_id(self, trid):
    query_string = '(trajid == trid)'
    if self._frame_limit:
        query_string = query_string + ' & ' + self._frame_limit
    kwds = _fields_except(self._table.read_where(query_string), 'trajid')
    return Trajectory(trajid=trid, **kwds)
'''), (S, 'Scene.frame_by_time', '''
def frame_by_time(self, t):
    kwds = _fields_except(self._table.read_where('(time == t)'), 'time')
    return ParticleSnapshot(time=t, **kwds)
'''), (S, 'Scene.iter_frames', '''
def iter_frames(self):
    for t, arr in self._iter_frame_arrays():
        yield ParticleSnapshot(time=t, **_fields_except(arr, 'time'))
'''))
f('3-traj-query', (S, 'Scene.trajectory_by_id', '''
def trajectory_by_id(self, trid):
    arr = self._read_trajectory(trid)
    kwds = {}
    for field in arr.dtype.fields:
        if field == 'trajid':
            continue
        kwds[field] = arr[field]
    return Trajectory(trajid=trid, **kwds)

def _read_trajectory(self, trid):
    terms = ['(trajid == trid)']
    if self._frame_limit != '':
        terms.append(self._frame_limit)
    return self._table.read_where(' & '.join(terms))
'''), (S, 'Scene.iter_trajectories', '''
def iter_trajectories(self):
    for trid in self._trids:
        yield self.trajectory_by_id(trid)
'''))
f('3-segments-isin', (S, 'Scene.iter_segments', '''
def iter_segments(self):
    for (t, arr), (tn, next_arr) in pairwise(self._iter_frame_arrays()):
        continuing = set(arr['trajid']).intersection(next_arr['trajid'])

        def restrict(table):
            if len(table) == 0:
                return table
            mask = np.array([tr in continuing for tr in table['trajid']])
            return table[mask]

        def snapshot(table, time):
            kwds = dict((name, table[name]) for name in table.dtype.fields
                if name != 'time')
            return ParticleSnapshot(time=time, **kwds)

        yield (snapshot(restrict(arr), t), snapshot(restrict(next_arr), tn))
'''))
f('3-segments-npisin', (S, 'Scene.iter_segments', '''
def iter_segments(self):
    for arr, next_arr in pairwise(self._iter_frame_arrays()):
        t, arr = arr
        tn, next_arr = next_arr
        in_arr = np.isin(arr['trajid'], next_arr['trajid'])
        in_next_arr = np.isin(next_arr['trajid'], arr['trajid'])
        arr = arr[in_arr]
        next_arr = next_arr[in_next_arr]
        frames = []
        for time, table in ((t, arr), (tn, next_arr)):
            kwds = dict((field, table[field]) for field in arr.dtype.fields \\
                if field != 'time')
            kwds['time'] = time
            frames.append(ParticleSnapshot(**kwds))
        yield frames[0], frames[1]
'''))
f('3-range-split', (S, 'Scene.set_frame_range', '''
def set_frame_range(self, frame_range):
    first, last = (None, None) if frame_range is None else frame_range
    exprs = []
    if first is not None:
        exprs.append("(time >= %d)" % first)
    if last is not None:
        exprs.append("(time < %d)" % last)
    if first is None or last is None:
        t = self._table.col('time')
        if first is None:
            first = int(t.min())
        if last is None:
            last = int(t.max()) + 1
    self._first = first
    self._last = last
    self._frame_limit = ' & '.join(exprs)
'''))
f('3-collect-early', (S, 'Scene.collect', '''
def collect(self, keys, where=None):
    conds = []
    if self._frame_limit != '':
        conds.append(self._frame_limit)
    for key, rng in ({} if where is None else where).items():
        conds.append(gen_query_string(key, rng))

    if len(conds) == 0:
        return [self._table.col(k) for k in keys]

    raw = self._table.read_where(' & '.join(conds))
    return [raw[k] for k in keys]
'''))
f('3-box', (S, 'Scene.bounding_box', '''
def bounding_box(self):
    attrs = self._table._v_attrs
    if 'min_pos' not in attrs._f_list():
        pos, = self.collect(['pos'])
        return np.min(pos, axis=0), np.max(pos, axis=0)
    return attrs.min_pos, attrs.max_pos
'''))
f('3-dual-ctx', (S, 'DualScene.iter_frames', '''
def iter_frames(self, frame_range=-1):
    override = frame_range != -1
    if override:
        self._set_both(frame_range)
    try:
        pairs = zip(self._particles.iter_frames(), self._tracers.iter_frames())
        for particles, tracers in pairs:
            yield self._frame(particles, tracers)
    finally:
        if override:
            self._set_both(self._rng)

def _set_both(self, frame_range):
    for scene in (self._particles, self._tracers):
        scene.set_frame_range(frame_range)

@staticmethod
def _frame(particles, tracers):
    frame = Frame()
    frame.particles = particles
    frame.tracers = tracers
    return frame
'''))
f('3-dual-seg', (S, 'DualScene.iter_segments', '''
def iter_segments(self, frame_range=-1):
    if frame_range != -1:
        self._particles.set_frame_range(frame_range)
        self._tracers.set_frame_range(frame_range)

    try:
        for (part, next_part), (tracer, next_tracer) in zip(
            self._particles.iter_segments(), self._tracers.iter_segments()):
            ret = []
            for p, tr in [(part, tracer), (next_part, next_tracer)]:
                frame = Frame()
                frame.tracers, frame.particles = tr, p
                ret.append(frame)
            yield tuple(ret)
    finally:
        if frame_range != -1:
            self._particles.set_frame_range(self._rng)
            self._tracers.set_frame_range(self._rng)
'''))
f('3-scene-init', (S, 'Scene.__init__', '''
def __init__(self, file_name, frame_range=None):
    self._file = tables.open_file(file_name)
    self._table = self._file.get_node('/particles')
    self._trids = self._find_trids()
    self._keys = [name for name in self._table.colnames
        if name not in ('trajid', 'time')]
    desc = self._table.coldescrs
    self._shapes = [desc[name].shape[0] if desc[name].shape else 1
        for name in self._keys]
    self.set_frame_range(frame_range)

def _find_trids(self):
    try:
        return self._file.get_node('/bounds').col('trajid')
    except Exception:
        return np.unique(self._table.col('trajid'))
'''))
f('3-read-dual', (S, 'read_dual_scene', '''
def read_dual_scene(conf_fname):
    parser = ConfigParser()
    parser.read(conf_fname)
    scene_sect = parser["Scene"]
    part_sect = parser["Particle"]
    first = scene_sect.getint("first frame")
    last = scene_sect.getint("last frame")
    particle = Particle(diameter=part_sect.getfloat("diameter"),
        density=part_sect.getfloat("density"))
    return DualScene(scene_sect["tracers file"], scene_sect["particles file"],
        scene_sect.getfloat("frame rate"), particle, (first, last + 1))
'''))
# ------------------------------------------------------- trajectory.py
f('3-schema', (T, 'ParticleSet.schema', '''
def schema(self):
    result = {}
    for name in self._check_attr:
        result[name] = self._values(name).shape[1:]
    return result

def _values(self, name):
    return self.__dict__['_' + name]
'''), (T, 'ParticleSet.as_dict', '''
def as_dict(self):
    return {name: self._values(name) for name in self._check_attr}
'''), (T, 'ParticleSet.ext_schema', '''
def ext_schema(self):
    schm = {}
    for propname in self._check_attr:
        prop = self._values(propname)
        if prop.ndim == 1:
            schm[propname] = (prop.dtype.type, ())
        else:
            schm[propname] = (prop.dtype.type, prop.shape[-1])
    return schm
'''))
f('3-create', (T, 'ParticleSet.create_property', '''
def create_property(self, propname, init_val):
    attr = '_' + propname
    self._check_attr.append(propname)

    def getter(self, selector=None):
        values = getattr(self, attr)
        return values if selector is None else values[selector]

    def setter(self, new_val, selector=None):
        if selector is not None:
            getattr(self, attr)[selector] = new_val
            return
        setattr(self, attr, new_val)

    setattr(self, propname, types.MethodType(getter, self))
    setattr(self, 'set_' + propname, types.MethodType(setter, self))
    if init_val is not None:
        setattr(self, attr, init_val)
'''))
f('3-pset-init', (T, 'ParticleSet.__init__', '''
def __init__(self, pos, velocity, **kwds):
    self._check_attr = []
    self.create_property('pos', pos)
    self.create_property('velocity', velocity)
    for name in kwds:
        self.create_property(name, kwds[name])
'''))
f('3-traj-getitem', (T, 'Trajectory.__getitem__', '''
def __getitem__(self, selector):
    pos = self._pos[selector]
    vel = self._velocity[selector]
    time = self._time[selector]
    trid = np.full(pos.shape[:-1] + (1,), float(self._id))
    return np.concatenate((pos, vel, time[..., None], trid), axis=-1)
'''))
f('3-smoothed', (T, 'Trajectory.smoothed', '''
def smoothed(self, err_bound, order):
    num_points = len(self.time())
    if num_points <= order:
        return self
    smoothing = (num_points*err_bound)**2
    tck, u = interp.splprep(list(self.pos().T), s=smoothing, k=order)
    pos, vel, accel = [np.array(interp.splev(u, tck, der=d)).T
        for d in range(3)]
    return Trajectory(pos, vel, self.time(), self.trajid(), accel=accel)
'''))
f('3-unique', (T, 'mark_unique_rows', '''
def mark_unique_rows(all_rows):
    coords = all_rows[:,:3]
    order = np.lexsort(coords.T)
    is_new = np.r_[True, np.any(np.diff(coords[order], axis=0) != 0, axis=1)]
    return np.sort(order[is_new[:len(order)]])
'''))
f('3-in-frame', (T, 'trajectories_in_frame', '''
def trajectories_in_frame(trajects, frame_num, start_times=None, end_times=None,
    segs=False):
    if start_times is None or end_times is None:
        start_times = np.array([tr.time()[0] for tr in trajects])
        end_times = np.array([tr.time()[-1] for tr in trajects])

    last_needed = frame_num
    if segs:
        last_needed += 1
    cands = (start_times <= frame_num) & (end_times >= last_needed)
    cand_nums = np.flatnonzero(cands)
    if len(cand_nums) == 0:
        return cand_nums

    offsets = (frame_num - start_times[cand_nums]).astype(np.int64)
    pos = np.array([trajects[trix].pos()[frm]
        for trix, frm in zip(cand_nums, offsets)])
    return cand_nums[mark_unique_rows(pos)]
'''))
f('3-snapshot', (T, 'take_snapshot', '''
def take_snapshot(trajects, frame, schema):
    num = len(trajects)
    if num == 0:
        kwds = {}
        for k, v in schema.items():
            kwds[k] = np.empty((0,) + v)
        return ParticleSnapshot(time=frame, trajid=np.empty(0), **kwds)

    first = trajects[0].__dict__
    kwds = {k: np.empty((num,) + v, dtype=first['_' + k].dtype)
        for k, v in schema.items()}
    trids = np.empty(num, dtype=np.int64)
    for trix in range(num):
        traj = trajects[trix]
        place = int(frame - traj.time()[0])
        trids[trix] = traj.trajid()
        for prop, arr in kwds.items():
            arr[trix] = traj.__dict__[prop](place)
    return ParticleSnapshot(time=frame, trajid=trids, **kwds)
'''))
# ---------------------------------------------------- interpolation.py
f('3-select', (I, 'select_neighbs', '''
def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
    companionship=None):
    dists = _distances(tracer_pos, interp_points)
    dists[dists <= 0] = np.inf
    if companionship is not None:
        having = np.nonzero(companionship >= 0.)[0]
        dists[having, companionship[having]] = np.inf

    if radius is not None:
        use_parts = dists < radius
    elif num_neighbs is not None:
        order = np.argsort(dists, axis=1)[:,:num_neighbs]
        use_parts = np.zeros(dists.shape, dtype=bool)
        rows = np.arange(len(interp_points))[:,None]
        use_parts[rows, order] = True
        use_parts &= ~np.isinf(dists)
    else:
        raise ValueError("Either radius or num_neighbs must be given.")
    dists[np.isinf(dists)] = 0.
    return dists, use_parts

def _distances(tracer_pos, interp_points):
    return np.linalg.norm(tracer_pos[None,:,:] - interp_points[:,None,:],
        axis=2)
'''))
f('3-corrfun', (I, 'corrfun_interp', '''
def corrfun_interp(dists, use_parts, data, corrs_hist, corrs_bins):
    used = dists[use_parts]
    bin_ix = np.digitize(used, corrs_bins) - 1
    weights = np.zeros(dists.shape + (data.shape[-1],))
    weights[use_parts] = corrs_hist[bin_ix]
    total = np.sum(weights, axis=1)
    return np.sum(weights*data[None,...], axis=1)/total
'''))
f('3-rbf', (I, 'rbf_interp', '''
def rbf_interp(tracer_dists, dists, use_parts, data, epsilon=1e-2):
    kernel = np.exp(-tracer_dists**2 * epsilon)
    coeffs = np.zeros(dists.shape + (data.shape[-1],))
    for pix, used in enumerate(use_parts):
        neighbs = np.flatnonzero(used)
        local = kernel[neighbs][:,neighbs]
        coeffs[pix, neighbs] = np.linalg.solve(local, data[neighbs])
    rbf = np.exp(-(dists**2) * epsilon)
    return (rbf[:,:,None] * coeffs).sum(axis=1)
'''))
f('3-interp-init', (I, 'GeneralInterpolant.__init__', '''
def __init__(self, method, num_neighbs=None, radius=None, param=None):
    defaults = {'rbf': 7, 'corrfun': 4}
    if method not in ('subclass', 'rbf', 'corrfun'):
        raise NotImplementedError(
            "Interpolation method %s not supported" % method)
    if num_neighbs is None:
        num_neighbs = defaults.get(method)
    if method == 'rbf' and param is None:
        param = 1e5
    if method == 'corrfun':
        if param is None:
            raise ValueError("'corrfun' method requires param to be an NPZ"
                " file name containing the corrs and bins arrays.")
        c = np.load(param)
        self._corrs, self._bins = c['corrs'], c['bins']

    self._method = method
    self._neighbs = num_neighbs
    self._par = param
    self._radius = radius
    self._upb = np.inf if radius is None else radius
'''))
f('3-ensure-current', (I, 'GeneralInterpolant.current_dists', '''
def current_dists(self):
    self._ensure_neighbours()
    return self.__dists

def _ensure_neighbours(self):
    if self.__active_neighbs is None:
        self._forego_laziness()
'''), (I, 'GeneralInterpolant.current_relative_positions', '''
def current_relative_positions(self):
    self._ensure_neighbours()
    return self.__rel_pos
'''), (I, 'GeneralInterpolant.current_active_neighbs', '''
def current_active_neighbs(self):
    self._ensure_neighbours()
    return self.__active_neighbs
'''))
f('3-query', (I, 'GeneralInterpolant._select_neighbs', '''
def _select_neighbs(self, interp_pts, comp=None):
    none = self.__tracers.shape[0]
    dists, active = self.__field_tree.query(interp_pts, self._neighbs + 2,
        distance_upper_bound=self._upb)
    drop = dists <= 0.
    if comp is not None:
        drop = drop | (active == comp[:,None])
    dists = np.where(drop, np.inf, dists)
    active = np.where(drop, none, active)
    order = np.argsort(dists, axis=1, kind='stable')
    order = order[:,:self._neighbs]
    return (np.take_along_axis(dists, order, axis=1),
        np.take_along_axis(active, order, axis=1))
'''))
f('3-trim', (I, 'GeneralInterpolant.trim_points', '''
def trim_points(self, which):
    keep = np.logical_not(which)
    self.__interp_pts = self.__interp_pts[keep]
    self.__matched_data = None
    if self.__comp is not None:
        self.__comp = self.__comp[keep]
    if self.__dists is None:
        return
    self.__rel_pos = self.__rel_pos[keep]
    self.__has_data = self.__has_data[keep]
    self.__active_neighbs = self.__active_neighbs[keep]
    self.__dists = self.__dists[keep]
'''))
f('3-matched', (I, 'GeneralInterpolant._ensure_matched_data', '''
def _ensure_matched_data(self):
    if self.__matched_data is not None:
        return self.__matched_data
    shape = self.__active_neighbs.shape + (self.__data.shape[1],)
    matched = np.zeros(shape)
    matched[self.__has_data] = \\
        self.__data[self.__active_neighbs[self.__has_data]]
    self.__matched_data = matched
    return matched
'''))
f('3-setdata', (I, 'GeneralInterpolant.set_data_on_current_field', '''
def set_data_on_current_field(self, data):
    self.__matched_data = None
    if data.ndim >= 2:
        self.__data = data
        return
    one_each = data.shape[0] == self.__tracers.shape[0]
    self.__data = data[:,None] if one_each else data[None,:]
'''))
f('3-jac', (I, 'GeneralInterpolant.eulerian_jacobian', '''
def eulerian_jacobian(self, local_interp=None, eps=1e-4):
    if local_interp is None:
        local_interp = self.interpolate()
    jac = np.empty((self.__interp_pts.shape[0], 3, 3))
    for axis in range(3):
        shift = np.zeros(3)
        shift[axis] = eps
        moved = self(self.__tracers, self.__interp_pts + shift, self.__data, self.__comp)
        jac[:,:,axis] = (moved - local_interp)/eps
    return jac
'''))
f('3-idw-jac', (I, 'InverseDistanceWeighter.eulerian_jacobian', '''
def eulerian_jacobian(self, local_interp=None, eps=None):
    if local_interp is None:
        local_interp = self.interpolate()
    active = self.current_active_neighbs()
    powers = self.current_dists()**(-(self._par + 2))
    powers[active == self.field_positions().shape[0]] = 0.
    vel_diffs = self._ensure_matched_data() - local_interp[:,None,:]
    outer = self.current_relative_positions()[:,:,None,:]*vel_diffs[...,None]
    total = self.__weights.sum(axis=1)
    scale = self._par/total
    return scale[:,None,None]*np.sum(powers[...,None,None]*outer, axis=1)
'''))
f('3-idw-meth', (I, 'InverseDistanceWeighter._meth_interp', '''
def _meth_interp(self, act_neighbs=None):
    current = self.current_active_neighbs()
    if act_neighbs is None or act_neighbs is current:
        return self._apply_weights(self.__weights, self._ensure_matched_data())
    data = self.current_data()
    has_data = act_neighbs < data.shape[0]
    matched = np.zeros(act_neighbs.shape + (data.shape[1],))
    matched[has_data] = data[act_neighbs[has_data]]
    weights = self.weights(self.current_dists(), act_neighbs)
    return self._apply_weights(weights, matched)
'''))
f('3-zeros', (I, '+', '''
def _no_tracers(num_points, data):
    warnings.warn("No tracers in frame, interpolation returned zeros.")
    num_comps = data.shape[-1] if data.ndim > 1 else 1
    return np.zeros((num_points, num_comps))
'''), (I, 'GeneralInterpolant.interpolate', '''
def interpolate(self, subset=None):
    if len(self.__tracers) == 0:
        return _no_tracers(self.__interp_pts.shape[0], self.__data)
    if self.__active_neighbs is None:
        self._forego_laziness()
    if subset is None:
        subset = self.__active_neighbs
    return self._meth_interp(subset)
'''), (I, 'InverseDistanceWeighter.__call__', '''
def __call__(self, tracer_pos, interp_points, data, companionship=None):
    num_tracers = tracer_pos.shape[0]
    if num_tracers == 0:
        return _no_tracers(interp_points.shape[0], data)
    dists, use_parts = select_neighbs(tracer_pos, interp_points, self._radius,
        self._neighbs, companionship)
    active = np.where(use_parts, np.arange(num_tracers), num_tracers)
    dists = np.where(use_parts, dists, np.inf)
    return self._apply_weights(self.weights(dists, active, num_tracers),
        data[None,...])
'''))
f('3-ndists', (I, 'GeneralInterpolant.neighb_dists', '''
def neighb_dists(self, tracer_pos, interp_points, companionship=None):
    dists, use_parts = select_neighbs(tracer_pos, interp_points, None,
        self._neighbs, companionship)
    ret = np.zeros((len(interp_points), min(len(tracer_pos), self._neighbs)))
    for row, dist, used in zip(ret, dists, use_parts):
        chosen = dist[used]
        row[:len(chosen)] = chosen
    return ret
'''))
f('3-save-interp', (I, 'GeneralInterpolant.save_config', '''
def save_config(self, cfg):
    section = 'Interpolant'
    if section not in cfg.sections():
        cfg.add_section(section)
    cfg.set(section, 'method', self._method)
    optional = {'radius': self._radius, 'num_neighbs': self._neighbs,
        'param': self._par}
    for key, val in optional.items():
        if val is not None:
            cfg.set(section, key, str(val).replace('%', '%%'))
        else:
            cfg.remove_option(section, key)
'''))
f('3-read-interp', (I, 'read_interpolant', '''
def read_interpolant(conf_fname):
    parser = ConfigParser()
    parser.read(conf_fname)
    section = 'Interpolant'
    method = parser.get(section, 'method')
    readers = {'num_neighbs': parser.getint, 'radius': parser.getfloat,
        'param': parser.get if method == 'corrfun' else parser.getfloat}
    kwds = dict((key, read(section, key)) for key, read in readers.items()
        if parser.has_option(section, key))
    return interpolant(method, **kwds)
'''))
# ---------------------------------------------------------------- io.py
f('3-frame-nums', (IO, '+', '''
def _frames_present(names, pattern, first, last):
    """(number, name) of the names of frames in the range."""
    for name in names:
        match = pattern.match(name)
        if not match:
            continue
        frame = int(match.group(1))
        if (first is None or frame >= first) and \\
                (last is None or frame <= last):
            yield frame, name
'''), (IO, 'trajectories_acc', '''
def trajectories_acc(fname, first=None, last=None):
    trajects = []
    dirname, basename = os.path.split(os.path.expanduser(fname))
    names = os.listdir(dirname or os.curdir)
    found = _frames_present(names, frame_file_pattern(basename), first, last)
    cols = tuple(range(9)) + (33,)
    for frame, name in sorted(found):
        table = np.loadtxt(os.path.join(dirname, name), usecols=cols, ndmin=2)
        age = table[:,-1]
        starts = np.flatnonzero(age == 0)
        ends = np.append(starts[1:], len(table))
        for s, e in zip(starts, ends):
            path = table[s:e]
            trajects.append(Trajectory(path[:,:3], path[:,3:6],
                path[:,-1] + frame, len(trajects), accel=path[:,6:9]))
    return trajects
'''))
f('3-mat', (IO, 'trajectories_mat', '''
def trajectories_mat(fname):
    data = io.loadmat(os.path.expanduser(fname))
    data_name = next(s for s in data
        if not s.startswith('__') and s != 'directory')

    def vector(traj, names):
        return np.hstack([traj[name] for name in names])/1000.

    return [Trajectory(vector(traj, ('xf', 'yf', 'zf')),
        vector(traj, ('uf', 'vf', 'wf')), traj['t'].squeeze(),
        traj['trajid'][0,0], accel=vector(traj, ('axf', 'ayf', 'azf')))
        for traj in data[data_name][:,0]]
'''))
f('3-collect-particles', (IO, 'collect_particles', '''
def collect_particles(fname_tmpl, frame, path_seg=False):
    fname_tmpl = os.path.expanduser(fname_tmpl)
    selected = []
    path_age = 0
    while os.path.exists(fname_tmpl % (frame - path_age)):
        table = np.loadtxt(fname_tmpl % (frame - path_age),
            usecols=(0, 1, 2, 3, 4, 5, 33), ndmin=2)
        ages = table[:,-1]
        if path_seg is True:
            follows = np.roll(ages, -1) == path_age + 1
            segs = np.nonzero((ages == path_age) & follows)[0]
            selected.append(np.stack((table[segs], table[segs + 1])))
        else:
            selected.append(table[ages == path_age])
        path_age += 1

    if path_seg is not True:
        rows = np.vstack(selected)
        return rows[mark_unique_rows(rows)]
    rows = np.concatenate(selected, axis=1)
    return rows[:,mark_unique_rows(rows[0])]
'''))
f('3-generic', (IO, 'collect_particles_generic', '''
def collect_particles_generic(trajects, frame, path_seg=False):
    selected = []
    for traj in trajects:
        time = traj.time()
        if path_seg is True:
            found = np.flatnonzero((time[:-1] == frame) & (time[1:] == frame + 1))
        else:
            found = np.flatnonzero(time == frame)
        if not len(found):
            continue
        place = found[0]
        if path_seg is True:
            selected.append(traj[place:place + 2].reshape(2, 1, -1))
        else:
            selected.append(traj[place])

    if path_seg is True:
        if not selected:
            return np.empty((2, 0, 8))
        rows = np.concatenate(selected, axis=1)
        return rows[:,mark_unique_rows(rows[0])]
    if not selected:
        return np.empty((0, 8))
    rows = np.vstack(selected)
    return rows[mark_unique_rows(rows)]
'''))
f('3-trajectories', (IO, 'trajectories', '''
def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
    iter_allowed=False):
    fmt = infer_format(fname) if fmt is None else fmt

    if fmt == 'ptvis' and iter_allowed:
        return iter_trajectories_ptvis(fname, first, last, frate,
            traj_min_len=traj_min_len)
    if fmt == 'ptvis':
        return trajectories_ptvis(fname, first, last, frate,
            traj_min_len=traj_min_len)

    if fmt == 'mat':
        traj = trajectories_mat(fname)
    elif fmt == 'npz':
        traj = load_trajectories(fname, first, last)[0]
    elif fmt == 'acc':
        traj = trajectories_acc(fname, first, last)
    elif fmt == 'xuap':
        traj = trajectories_ptvis(fname, first, last, frate, xuap=True,
            traj_min_len=traj_min_len)
    elif fmt == 'hdf':
        end = last + 1 if last is not None else None
        scene = Scene(fname, (first, end))
        traj = (t for t in scene.iter_trajectories() if len(t) > 0)
    else:
        raise ValueError('Unknown trajectories format: %s' % fmt)

    shortest = 2 if traj_min_len is None else traj_min_len
    kept = (tr for tr in traj if len(tr) >= shortest)
    return kept if iter_allowed else list(kept)
'''))
f('3-infer', (IO, 'infer_format', '''
def infer_format(fname):
    if fname.endswith('mat'):
        return 'mat'
    if fname.endswith('/'):
        return 'npz'
    if fname.endswith('.txt') or 'ptv_is' in fname:
        return 'ptvis'
    if 'xuap' in fname:
        return 'xuap'
    if fname.endswith(('h5', 'hdf')):
        return 'hdf'
    return 'acc'
'''))
f('3-save-traj', (IO, 'save_trajectories', '''
def save_trajectories(output_dir, trajects, per_traject_adds, **kwds):
    os.makedirs(output_dir, exist_ok=True)
    for traj in trajects:
        trid = traj.trajid()
        save_data = {}
        for k, v in traj.as_dict().items():
            save_data['traj:' + k] = v
        save_data.update((k, v[trid]) for k, v in per_traject_adds.items())
        np.savez(os.path.join(output_dir, 'traj_%d' % trid), **save_data)
    for name in kwds:
        np.save(os.path.join(output_dir, name), kwds[name])
'''))
f('3-load-traj', (IO, 'load_trajectories', '''
def load_trajectories(res_dir, first=None, last=None):
    res_dir = os.path.expanduser(res_dir)
    trajects = []
    per_traject_adds = {}
    names = [name for name in os.listdir(res_dir) if name.endswith('.npz')]
    for tr_file in sorted(names):
        data = np.load(os.path.join(res_dir, tr_file))
        trajid = int(tr_file.split('.')[0][len('traj_'):])
        kwds = {}
        for k in data.files:
            if not k.startswith('traj:'):
                per_traject_adds.setdefault(k, {})[trajid] = data[k]
                continue
            kwds[k[len('traj:'):]] = data[k]
        if not (first is None and last is None):
            time = kwds['time']
            in_range = np.ones(time.shape, dtype=bool)
            if first is not None:
                in_range &= time >= first
            if last is not None:
                in_range &= time <= last
            if not in_range.any():
                continue
            kwds = dict((k, v[in_range]) for k, v in kwds.items())
        trajects.append(Trajectory(trajid=trajid, **kwds))
    return trajects, per_traject_adds
'''))
f('3-save-table', (IO, 'save_particles_table', '''
def save_particles_table(filename, trajects, trim=None):
    cut = 0 if trim is None else trim
    table = None
    outfile = tables.open_file(filename, mode='w')
    bounds_tab = outfile.create_table('/', 'bounds',
        np.dtype([('trajid', int), ('first', int), ('last', int)]))

    for traj in trajects:
        length = len(traj) - 2*cut
        if length <= 0:
            continue
        if table is None:
            dtype = _table_type('trajid', traj)
            table = outfile.create_table('/', 'particles', dtype)
        arr = np.empty(length, dtype=dtype)
        arr['trajid'] = traj.trajid()
        for k, v in traj.as_dict().items():
            arr[k] = v[cut:cut + length]
        table.append(arr)
        times = arr['time']
        bounds_tab.append([(traj.trajid(), times[0], times[-1])])

    for col in (table.cols.trajid, table.cols.time, bounds_tab.cols.trajid):
        col.create_index()
    outfile.flush()
    outfile.close()

def _table_type(key, particles):
    fields = [(key, int)]
    for field, desc in particles.ext_schema().items():
        fields.append((field,) + desc)
    return np.dtype(fields)
'''))
f('3-save-frames', (IO, 'save_frames_hdf', '''
def save_frames_hdf(filename, frames):
    outfile = tables.open_file(filename, mode='w')
    table = None
    lowest = np.array([np.inf]*3)
    highest = -lowest
    ongoing = {}
    for frame in frames:
        if len(frame) == 0:
            continue
        if table is None:
            fields = [('time', int)]
            fields.extend((field,) + desc
                for field, desc in frame.ext_schema().items())
            dtype = np.dtype(fields)
            table = outfile.create_table('/', 'particles', dtype)
        pos = frame.pos()
        lowest = np.minimum(lowest, pos.min(axis=0))
        highest = np.maximum(highest, pos.max(axis=0))

        t = frame.time()
        arr = np.empty(len(frame), dtype=dtype)
        for k, v in frame.as_dict().items():
            arr[k] = v
        arr['time'] = t
        table.append(arr)

        for trid in frame.trajid():
            first = ongoing[trid][0] if trid in ongoing else t
            ongoing[trid] = (first, t)

    table._v_attrs.min_pos = lowest
    table._v_attrs.max_pos = highest
    table.cols.trajid.create_index()
    table.cols.time.create_index()
    bounds_tab = outfile.create_table('/', 'bounds',
        np.dtype([('trajid', int), ('first', int), ('last', int)]))
    for trid, (first, last) in ongoing.items():
        bounds_tab.append([(trid, first, last)])
    bounds_tab.cols.trajid.create_index()
    outfile.flush()
    outfile.close()
'''))
f('3-traj-table', (IO, 'trajectories_table', '''
def trajectories_table(fname, first=None, last=None):
    conds = ['(trajid == trid)']
    if first is not None:
        conds.append('(time >= %d)' % first)
    if last is not None:
        conds.append('(time <= %d)' % last)
    query_string = ' & '.join(conds)

    trajects = []
    with tables.open_file(fname, mode='r') as outfile:
        table = outfile.get_node('/particles')
        for trid in np.unique(table.col('trajid')):
            arr = table.read_where(query_string)
            kwds = {name: arr[name] for name in arr.dtype.names
                if name != 'trajid'}
            trajects.append(Trajectory(trajid=trid, **kwds))
    return trajects
'''))
f('3-single-next', (IO, 'SingleFileIterator.__next__', '''
def __next__(self):
    lines = []
    found = False
    for line in self._f:
        found = True
        if not line.strip():
            break
        lines.append(line)
    if not found:
        raise StopIteration
    frame_num = self._frmix
    self._frmix = frame_num + 1
    if lines:
        return frame_num, self._read_frame(StringIO(''.join(lines)))
    return frame_num, np.empty(0, dtype=self._fmt)
'''))
f('3-read-frame', (IO, 'read_frame_data', '''
def read_frame_data(conf_fname):
    parser = ConfigParser()
    parser.read(conf_fname)
    particle = Particle(parser.getfloat("Particle", "diameter"),
        parser.getfloat("Particle", "density"))
    first_frame = parser.getint("Scene", "frame")
    frate = parser.getfloat("Scene", "frame rate")

    def load(option):
        trjs = trajectories(parser.get("Scene", option), first_frame,
            first_frame + 2, frate, None)
        ixs = trajectories_in_frame(trjs, first_frame, segs=True)
        return [trjs[t] for t in ixs], trjs[0].schema()

    tracers, tracer_schema = load("tracer_file")
    parts, part_schema = load("part_file")

    def frame_at(num):
        frame = Frame()
        frame.tracers = take_snapshot(tracers, num, tracer_schema)
        frame.particles = take_snapshot(parts, num, part_schema)
        return frame

    return particle, frate, frame_at(first_frame), frame_at(first_frame + 1)
'''))
# --------------------------------------------------------- sequence.py
f('3-seq-lazy', (Q, 'Sequence.particle_trajectories', '''
def particle_trajectories(self):
    if self.__ptraj is None:
        loaded = trajectories(self._ptmpl, self._rng[0], self._rng[1],
            self.frate, self._pfmt, self._minlen)
        self.__ptraj = self._psel(loaded)
        self.__pstarts, self.__pends = self._time_limits(self.__ptraj)
    return self.__ptraj

@staticmethod
def _time_limits(trajs):
    starts = np.array([tr.time()[0] for tr in trajs])
    ends = np.array([tr.time()[-1] for tr in trajs])
    return starts, ends
'''))
f('3-seq-sub', (Q, 'Sequence.subrange', '''
def subrange(self):
    first, last = self._rng
    times = [tr.time() for tr in self.particle_trajectories()]
    earliest = min(t.min() for t in times)
    latest = max(t.max() for t in times)
    return max(float(earliest), first), min(float(latest), last)
'''))
f('3-seq-iter', (Q, 'Sequence.iter_subrange', '''
def iter_subrange(self, first, last):
    parts = self.particle_trajectories()
    tracers = self.tracer_trajectories()
    self.__schema = parts[0].schema()
    self.__tschem = tracers[0].schema()
    for frame_num in range(first, last):
        tracer_ixs = trajectories_in_frame(tracers, frame_num,
            self.__tstarts, self.__tends, segs=True)
        part_ixs = trajectories_in_frame(parts, frame_num,
            self.__pstarts, self.__pends, segs=True)
        tracer_trjs = [tracers[t] for t in tracer_ixs]
        part_trjs = [parts[t] for t in part_ixs]
        pair = []
        for num in (frame_num, frame_num + 1):
            frame = Frame()
            frame.tracers = take_snapshot(tracer_trjs, num, self.__tschem)
            frame.particles = take_snapshot(part_trjs, num, self.__schema)
            pair.append(frame)
        yield pair[0], pair[1]
'''))
f('3-seq-map', (Q, 'Sequence.map_trajectories', '''
def map_trajectories(self, func, subrange=None, history=False, args=()):
    first, last = self._rng if subrange is None else subrange
    res = {}
    first_frames = {}
    for tr in self.particle_trajectories():
        t = tr.time()[:-1]
        t = t[(t >= first) & (t < last)]
        if len(t) == 0:
            continue
        first_frames[tr.trajid()] = t[0]
        res[tr.trajid()] = [None]*len(t)

    for frame, next_frame in self.iter_subrange(first, last):
        fargs = [self, frame, next_frame]
        if history:
            fargs.append(res)
        frm_res = func(*fargs, *args)
        now = frame.particles.time()
        for k in frm_res:
            res[k][int(now - first_frames[k])] = frm_res[k]

    return dict((k, np.array(v)) for k, v in res.items())
'''))
f('3-seq-save', (Q, 'Sequence.save_config', '''
def save_config(self, cfg):
    sections = {
        'Particle': [('diameter', self.part.diam),
            ('density', self.part.density)],
        'Scene': [('frame rate', self.frate),
            ('first frame', self._rng[0]),
            ('last frame', self._rng[1] - 1),
            ('apply smoothing', 'yes' if self._smooth else 'no'),
            ('trajectory minimal length', self._minlen),
            ('tracers file', self._trtmpl.replace('%', '%%')),
            ('particles file', self._ptmpl.replace('%', '%%'))]}
    for section, options in sections.items():
        if not cfg.has_section(section):
            cfg.add_section(section)
        for option, value in options:
            cfg.set(section, option, str(value))
'''))
f('3-seq-read', (Q, 'read_sequence', '''
def read_sequence(conf_fname, smooth=None, traj_min_len=None):
    parser = ConfigParser()
    parser.read(conf_fname)
    if smooth is None:
        smooth = parser.getboolean("Scene", "apply smoothing", fallback=False)
    if traj_min_len is None:
        traj_min_len = parser.getint("Scene", "trajectory minimal length",
            fallback=0)
    particle = Particle(parser.getfloat("Particle", "diameter"),
        parser.getfloat("Particle", "density"))
    first = parser.getint("Scene", "first frame")
    end = parser.getint("Scene", "last frame") + 1
    return Sequence((first, end), parser.getfloat("Scene", "frame rate"),
        particle, parser.get("Scene", "particles file"),
        parser.get("Scene", "tracers file"), smooth, traj_min_len)
'''))
# --------------------------------------------------- analysis, an_scene
f('3-comp', (A, 'companion_indices', '''
def companion_indices(trids, companions):
    ret = -1*np.ones_like(companions)
    tracer_ix, part_ix = np.nonzero(trids[:,None] == companions[None,:])
    ret[part_ix] = tracer_ix
    return ret
'''))
f('3-fluid', (A, 'FluidVelocitiesAnalyser.analyse', '''
def analyse(self, frame, next_frame):
    particles, tracers = frame.particles, frame.tracers
    comp = None
    if particles.has_property('companion'):
        comp = companion_indices(tracers.trajid(), particles.companion())
    self._interp.set_scene(tracers.pos(), particles.pos(),
        data=tracers.velocity(), companionship=comp)
    fluid_vel = self._interp.interpolate()
    return [fluid_vel, particles.velocity() - fluid_vel]
'''))
f('3-analysis', (A, 'analysis', '''
def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
    dtype = np.dtype(sum((an.descr() for an in analysers),
        [('trajid', int), ('time', int)]))
    outfile = tables.open_file(analysis_file, mode='w',
        title="Analysis results.")
    table = outfile.create_table('/', 'analysis', dtype)
    table.attrs['trajects'] = scene.get_particles_path()
    table.attrs['config'] = conf_file

    for frame, next_frame in scene.iter_segments(frame_range):
        particles = frame.particles
        arr = np.empty(len(particles), dtype=dtype)
        arr['time'] = particles.time()
        arr['trajid'] = particles.trajid()
        for analyser in analysers:
            results = analyser.analyse(frame, next_frame)
            names = [desc[0] for desc in analyser.descr()]
            for name, res in zip(names, results):
                arr[name] = res
        table.append(arr)

    for column in (table.cols.trajid, table.cols.time):
        column.create_index()
    outfile.flush()
    outfile.close()
'''))
f('3-an-collect', (AN, 'AnalysedScene.collect', '''
def collect(self, keys, where=None):
    pkeys = set(self._scene.get_particles().keys())
    conds = {True: [], False: []}
    if where is not None:
        for key, rng in where.items():
            conds[key in pkeys].append(gen_query_string(key, rng))
    part_cond = ' & '.join(conds[True]) if conds[True] else None
    an_cond = ' & '.join(conds[False]) if conds[False] else None

    res = {k: [] for k in keys}
    part_frames = self._scene.get_particles()._iter_frame_arrays(part_cond)
    an_frames = self._iter_frame_arrays(an_cond)
    for (_, p_arr), (_, a_arr) in zip(part_frames, an_frames):
        p_arr, a_arr = self._matching(p_arr, a_arr)
        for k in keys:
            source = p_arr if k in pkeys else a_arr
            res[k].append(source[k])
    return [np.concatenate(res[k], axis=0) for k in keys]

def _matching(self, p_arr, a_arr):
    common = set(p_arr['trajid']) & set(a_arr['trajid'])
    ret = []
    for arr in (p_arr, a_arr):
        if len(arr) > 0:
            arr = arr[np.array([tr in common for tr in arr['trajid']])]
        ret.append(arr)
    return ret
'''))
f('3-an-traj', (AN, 'AnalysedScene.trajectory_by_id', '''
def trajectory_by_id(self, trid):
    part_traj = self._scene.get_particles().trajectory_by_id(trid)
    arr = self._table.read_where('(trajid == trid)')
    props = {}
    for k, v in part_traj.as_dict().items():
        props[k] = v[:-1]
    props.update((field, arr[field]) for field in arr.dtype.fields
        if field not in ('trajid', 'time'))
    return Trajectory(trajid=trid, **props)
'''))
# ------------------------------------------------- smoothing, pairs, graphics
f('3-sg', (SM, 'savitzky_golay', '''
def savitzky_golay(trajs, fps, window_size, order):
    try:
        window_size = np.abs(np.int64(window_size))
        order = np.abs(np.int64(order))
    except ValueError:
        raise ValueError("window_size and order have to be of type int")
    if window_size % 2 != 1 or window_size < 1:
        raise TypeError("window_size size must be a positive odd number")
    if window_size < order + 2:
        raise TypeError("window_size is too small for the polynomials order")

    half = (window_size - 1)//2
    powers = range(order + 1)
    b = np.array([[k**i for i in powers] for k in range(-half, half + 1)])
    m = np.vstack((np.linalg.pinv(b), np.zeros((4, window_size))))
    kernels = (m[0], m[1]*fps, m[2]*(fps**2*2), m[3]*(fps**3*6))
    replaced = ('pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time',
        'trajid')

    def extended(y):
        before = y[0] - np.abs(y[1:half + 1][::-1] - y[0])
        after = y[-1] + np.abs(y[-half - 1:-1][::-1] - y[-1])
        return np.concatenate((before, y, after))

    def filtered(kernel, columns):
        return np.r_[[np.convolve(kernel[::-1], y, mode='valid')
            for y in columns]].T

    new_trajs = []
    for traj in trajs:
        if len(traj) < window_size:
            continue
        columns = [extended(y) for y in traj.pos().T]
        newpos, newvel, newacc, jerk = [filtered(kernel, columns)
            for kernel in kernels]
        vel_pp = np.vstack((np.zeros(3),
            newvel + newacc/fps + jerk/2./fps**2))[:-1]
        acc_pp = np.vstack((np.zeros(3), newacc + jerk/fps))[:-1]
        newtraj = Trajectory(newpos, newvel, traj.time(), traj.trajid(),
            accel=newacc, vel_pp=vel_pp, acc_pp=acc_pp)
        for k, v in traj.as_dict().items():
            if k in replaced:
                continue
            newtraj.create_property(k, v)
        new_trajs.append(newtraj)
    return new_trajs
'''))
f('3-pairs', (P, 'particle_pairs', '''
def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
    pair_trids = np.full_like(time_points, -1)
    pair_time = np.full_like(time_points, -1)
    prim_traj = [t for t in primary_trajects if t.trajid() in np.unique(trajids)]
    known_ids = [t.trajid() for t in prim_traj]
    found = np.isin(trajids, known_ids)

    frames = np.empty_like(time_points)
    for traj in prim_traj:
        mine = trajids == traj.trajid()
        frames[mine] = traj.time()[time_points[mine]]
    schema = prim_traj[0].schema()

    for frame_num in np.unique(frames[found]):
        here = found & (frames == frame_num)
        wanted = np.unique(trajids[here])
        prim_parts = take_snapshot(
            [t for t in prim_traj if t.trajid() in wanted], frame_num, schema)
        sec_in_frame = [secondary_trajects[tix] for tix in
            trajectories_in_frame(secondary_trajects, frame_num, segs=True)]
        if not sec_in_frame:
            continue
        sec_parts = take_snapshot(sec_in_frame, frame_num,
            sec_in_frame[0].schema())
        diffs = prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:]
        nearest = (diffs**2).sum(axis=2).argmin(axis=1)
        prim_ixs = [np.flatnonzero(prim_parts.trajid() == trid)[0]
            for trid in trajids[here]]
        pair_trids[here] = sec_parts.trajid()[nearest[prim_ixs]]
        pair_time[here] = frame_num

    for traj in secondary_trajects:
        mine = pair_trids == traj.trajid()
        if mine.any():
            pair_time[mine] -= int(traj.time(0))
    return pair_trids, pair_time
'''))
f('3-pdf', (G, 'pdf_bins', '''
def pdf_bins(data, num_bins, log_bins=False):
    bins = num_bins
    if log_bins:
        data = data[data > 0]
        low, high = np.log10(np.min(data)), np.log10(np.max(data))
        bins = np.logspace(low, high, num_bins + 1)
    return np.histogram(data, bins=bins, density=True)
'''))
f('3-vectors', (G, 'plot_vectors', '''
def plot_vectors(vecs, indep, xlabel, fig=None, marker='-',
    ytick_dens=None, yticks_format=None, unit_str="", common_scale=None,
    arrows=None, arrow_color=None):
    if fig is None:
        fig = pl.figure(None)
    else:
        fig = pl.figure(fig.number)
    u = np.zeros(len(vecs))
    labels = ("X " + unit_str, "Y" + unit_str, "Z" + unit_str)
    for subplt, label in enumerate(labels):
        comp = vecs[:,subplt]
        pl.subplot(3, 1, subplt + 1)
        pl.plot(indep, comp, marker)
        axes = pl.gca()
        axes.get_xaxis().set_visible(False)
        pl.grid()
        pl.ylabel(label)
        if yticks_format is not None:
            axes.get_yaxis().set_major_formatter(yticks_format)
        if common_scale is not None:
            pl.ylim(comp.mean() + np.r_[-common_scale, common_scale])
        if ytick_dens is not None:
            pl.yticks()
            pl.yticks(np.linspace(comp.min(), comp.max(), ytick_dens))
        if arrows is not None:
            pl.quiver(indep, comp, u, arrows[:,subplt], scale=30, width=1e-3,
                color=arrow_color)
    pl.gca().get_xaxis().set_visible(True)
    pl.xlabel(xlabel)
    return fig
'''))
