"""
More edits that keep the behaviour, by whole functions: f(name, (file,
qualified name, new text), ...); '+' for the name adds the text at the end of
the module.  Not read by any check.
"""
import ast, textwrap
REF2 = []


def f(name, *edits):
    REF2.append((name, edits))


def apply(text, qual, new):
    if qual == '+':
        return text.rstrip('\n') + '\n\n' + textwrap.dedent(new)
    node = ast.parse(text)
    for part in qual.split('.'):
        node = [n for n in node.body if getattr(n, 'name', None) == part][0]
    lines = text.split('\n')
    pad = ' ' * node.col_offset
    new = textwrap.indent(textwrap.dedent(new).strip('\n'), pad)
    lines[node.lineno - 1:node.end_lineno] = new.split('\n')
    return '\n'.join(lines)


S, T, I, IO, Q = ('scene.py', 'trajectory.py', 'interpolation.py', 'io.py',
                  'sequence.py')
A, AN, SM, P, G = ('analysis.py', 'an_scene.py', 'smoothing.py', 'pairs.py',
                   'graphics.py')
# ------------------------------------------------------------- scene.py
f('2-gen-query', (S, 'gen_query_string', '''
def gen_query_string(key, range_spec):
    smin, smax, invert = range_spec
    if invert:
        return "((%s < %.17g) | (%s >= %.17g))" % (key, smin, key, smax)
    return "((%s >= %.17g) & (%s < %.17g))" % (key, smin, key, smax)
'''))
f('2-gen-query-fmt', (S, 'gen_query_string', '''
def gen_query_string(key, range_spec):
    low, high, invert = range_spec
    if invert:
        ops = ('<', '|', '>=')
    else:
        ops = ('>=', '&', '<')
    left_op, joiner, right_op = ops
    left = "(%s %s %.17g)" % (key, left_op, low)
    right = "(%s %s %.17g)" % (key, right_op, high)
    return "(" + left + " " + joiner + " " + right + ")"
'''))
f('2-gen-query-fstr', (S, 'gen_query_string', '''
def gen_query_string(key, range_spec):
    smin, smax, invert = range_spec
    if invert:
        return f"(({key} < {smin:.17g}) | ({key} >= {smax:.17g}))"
    return f"(({key} >= {smin:.17g}) & ({key} < {smax:.17g}))"
'''))
f('2-set-range', (S, 'Scene.set_frame_range', '''
def set_frame_range(self, frame_range):
    if frame_range is None:
        frame_range = (None, None)
    first, last = frame_range

    conditions = []
    if first is not None:
        conditions.append("(time >= %d)" % first)
    if last is not None:
        conditions.append("(time < %d)" % last)
    self._frame_limit = ' & '.join(conditions)

    self._first = self._min_time() if first is None else first
    self._last = self._max_time() + 1 if last is None else last

def _min_time(self):
    return int(self._table.col('time').min())

def _max_time(self):
    return int(self._table.col('time').max())
'''))
f('2-set-range-np', (S, 'Scene.set_frame_range', '''
def set_frame_range(self, frame_range):
    first, last = (None, None) if frame_range is None else frame_range
    limits = []
    if first is None or last is None:
        times = self._table.col('time')
    if first is None:
        self._first = int(np.min(times))
    else:
        limits.append("(time >= %d)" % first)
        self._first = first
    if last is None:
        self._last = int(np.max(times)) + 1
    else:
        limits.append("(time < %d)" % last)
        self._last = last
    self._frame_limit = ' & '.join(limits)
'''))
f('2-traj-query', (S, 'Scene.trajectory_by_id', '''
def trajectory_by_id(self, trid):
    return self._read_trajectory(trid, self._trajectory_query())

def _trajectory_query(self):
    parts = ['(trajid == trid)']
    if self._frame_limit:
        parts.append(self._frame_limit)
    return ' & '.join(parts)

def _read_trajectory(self, trid, query):
    rows = self._table.read_where(query)
    fields = {name: rows[name] for name in rows.dtype.fields
        if name != 'trajid'}
    return Trajectory(trajid=trid, **fields)
'''), (S, 'Scene.iter_trajectories', '''
def iter_trajectories(self):
    query = self._trajectory_query()
    for trid in self._trids:
        yield self._read_trajectory(trid, query)
'''))
f('2-iter-by-id', (S, 'Scene.iter_trajectories', '''
def iter_trajectories(self):
    for trid in self.trajectory_ids():
        yield self.trajectory_by_id(trid)
'''))
f('2-iter-map', (S, 'Scene.iter_trajectories', '''
def iter_trajectories(self):
    return (self.trajectory_by_id(trid) for trid in self._trids)
'''))
f('2-frames-byhand', (S, 'Scene.iter_frames', '''
def iter_frames(self):
    for t in range(self._first, self._last):
        yield self.frame_by_time(t)
'''))
f('2-segs-mask', (S, 'Scene.iter_segments', '''
def iter_segments(self):
    frames = self._iter_frame_arrays()
    try:
        t, arr = next(frames)
    except StopIteration:
        return
    for tn, next_arr in frames:
        common = np.intersect1d(arr['trajid'], next_arr['trajid'])
        cur = arr[np.isin(arr['trajid'], common)]
        nxt = next_arr[np.isin(next_arr['trajid'], common)]
        yield self._to_snapshot(cur, t), self._to_snapshot(nxt, tn)
        t, arr = tn, next_arr

@staticmethod
def _to_snapshot(arr, t):
    kwds = dict((field, arr[field]) for field in arr.dtype.fields \\
        if field != 'time')
    return ParticleSnapshot(time=t, **kwds)
'''))
f('2-segs-comp', (S, 'Scene.iter_segments', '''
def iter_segments(self):
    for (t, arr), (tn, next_arr) in pairwise(self._iter_frame_arrays()):
        trajids = set(arr['trajid']).intersection(next_arr['trajid'])

        def continuing(rows):
            mask = np.array([tr in trajids for tr in rows['trajid']])
            return rows[mask] if len(mask) > 0 else rows

        def snapshot(rows, time):
            fields = {k: rows[k] for k in rows.dtype.fields if k != 'time'}
            fields['time'] = time
            return ParticleSnapshot(**fields)

        yield snapshot(continuing(arr), t), snapshot(continuing(next_arr), tn)
'''))
f('2-collect', (S, 'Scene.collect', '''
def collect(self, keys, where=None):
    conds = []
    if self._frame_limit != '':
        conds.append(self._frame_limit)
    conds.extend(gen_query_string(k, r) for k, r in (where or {}).items())

    if not conds:
        return [self._table.col(k) for k in keys]

    query = ' & '.join(conds)
    if len(keys) == 1:
        return [self._table.read_where(query, field=keys[0])]

    rows = self._table.read_where(query)
    return [rows[k] for k in keys]
'''))
f('2-bbox', (S, 'Scene.bounding_box', '''
def bounding_box(self):
    attrs = self._table._v_attrs
    if 'min_pos' not in attrs._f_list():
        poses, = self.collect(['pos'])
        return np.min(poses, axis=0), np.max(poses, axis=0)
    return attrs.min_pos, attrs.max_pos
'''))
f('2-tags', (S, 'Scene.trajectory_tags', '''
def trajectory_tags(self):
    tags = self._file.get_node('/bounds')
    return np.column_stack(
        (tags.col('trajid'), tags.col('first'), tags.col('last')))
'''))
f('2-dual-helper', (S, 'DualScene.iter_frames', '''
def iter_frames(self, frame_range=-1):
    change_range = frame_range != -1
    if change_range:
        self._set_ranges(frame_range)
    try:
        for particles, tracers in zip(
            self._particles.iter_frames(), self._tracers.iter_frames()):
            yield self._dual_frame(particles, tracers)
    finally:
        if change_range:
            self._set_ranges(self._rng)

def _set_ranges(self, frame_range):
    for scene in (self._particles, self._tracers):
        scene.set_frame_range(frame_range)

@staticmethod
def _dual_frame(particles, tracers):
    frame = Frame()
    frame.particles = particles
    frame.tracers = tracers
    return frame
'''), (S, 'DualScene.iter_segments', '''
def iter_segments(self, frame_range=-1):
    change_range = frame_range != -1
    if change_range:
        self._set_ranges(frame_range)
    try:
        for (p0, p1), (t0, t1) in zip(
            self._particles.iter_segments(), self._tracers.iter_segments()):
            yield self._dual_frame(p0, t0), self._dual_frame(p1, t1)
    finally:
        if change_range:
            self._set_ranges(self._rng)
'''))
f('2-read-dual', (S, 'read_dual_scene', '''
def read_dual_scene(conf_fname):
    parser = ConfigParser()
    parser.read(conf_fname)
    scene = parser["Scene"]
    part = parser["Particle"]

    particle = Particle(part.getfloat("diameter"), part.getfloat("density"))
    first = scene.getint("first frame")
    last = scene.getint("last frame")
    return DualScene(scene.get("tracers file"), scene.get("particles file"),
        scene.getfloat("frame rate"), particle, (first, last + 1))
'''))
# ------------------------------------------------------- trajectory.py
f('2-getter', (T, 'ParticleSet.create_property', '''
def create_property(self, propname, init_val):
    attr = '_' + propname
    self._check_attr.append(propname)

    def getter(self, selector=None):
        val = self.__dict__[attr]
        return val if selector is None else val[selector]

    def setter(self, new_val, selector=None):
        if selector is not None:
            self.__dict__[attr][selector] = new_val
            return
        self.__dict__[attr] = new_val

    setattr(self, propname, types.MethodType(getter, self))
    setattr(self, 'set_' + propname, types.MethodType(setter, self))
    if init_val is not None:
        setter(self, init_val)
'''))
f('2-schema', (T, 'ParticleSet.schema', '''
def schema(self):
    return {name: val.shape[1:] for name, val in self.as_dict().items()}
'''), (T, 'ParticleSet.as_dict', '''
def as_dict(self):
    props = {}
    for name in self._check_attr:
        props[name] = self.__dict__['_' + name]
    return props
'''))
f('2-ext-schema', (T, 'ParticleSet.ext_schema', '''
def ext_schema(self):
    def describe(prop):
        if prop.ndim > 1:
            return prop.dtype.type, prop.shape[-1]
        return prop.dtype.type, ()
    return {name: describe(self.__dict__['_' + name])
        for name in self._check_attr}
'''))
f('2-getitem', (T, 'Trajectory.__getitem__', '''
def __getitem__(self, selector):
    pos = self.pos(selector)
    vel = self.velocity(selector)
    time = self.time(selector)[...,None]
    trid = np.full(pos.shape[:-1] + (1,), self._id, dtype=float)
    return np.hstack((pos, vel, time, trid))
'''))
f('2-getitem-ones', (T, 'Trajectory.__getitem__', '''
def __getitem__(self, selector):
    pos = self._pos[selector]
    ids = self._id * np.ones(pos.shape[:-1] + (1,))
    columns = [pos, self._velocity[selector]]
    columns.append(self._time[selector][...,None])
    columns.append(ids)
    return np.hstack(columns)
'''))
f('2-smoothed', (T, 'Trajectory.smoothed', '''
def smoothed(self, err_bound, order):
    npts = len(self.time())
    if npts <= order:
        return self

    smoothing = (npts * err_bound)**2
    spline, prms = interp.splprep(list(self.pos().T), k=order, s=smoothing)

    def evaluate(der):
        return np.array(interp.splev(prms, spline, der=der)).T

    return Trajectory(evaluate(0), evaluate(1), self.time(), self.trajid(),
        accel=evaluate(2))
'''))
f('2-uniq', (T, 'mark_unique_rows', '''
def mark_unique_rows(all_rows):
    pos = all_rows[:,:3]
    order = np.lexsort(pos.T)
    ordered = pos[order]
    changed = (ordered[1:] != ordered[:-1]).any(axis=1)
    return np.sort(np.concatenate((order[:1], order[1:][changed])))
'''))
f('2-uniq-mask', (T, 'mark_unique_rows', '''
def mark_unique_rows(all_rows):
    srt = np.lexsort(all_rows[:,:3].T)
    diff = np.any(np.diff(all_rows[srt,:3], axis=0) != 0, axis=1)
    first = srt[:1]
    rest = srt[1:][diff]
    return np.sort(np.r_[first, rest])
'''))
f('2-in-frame', (T, 'trajectories_in_frame', '''
def trajectories_in_frame(trajects, frame_num,
    start_times=None, end_times=None, segs=False):
    if start_times is None or end_times is None:
        start_times = np.array([tr.time()[0] for tr in trajects])
        end_times = np.array([tr.time()[-1] for tr in trajects])

    last_needed = frame_num + (1 if segs else 0)
    active = (start_times <= frame_num) & (end_times >= last_needed)
    cand_nums = np.nonzero(active)[0]
    if len(cand_nums) == 0:
        return cand_nums

    # Filter candidates with overlapping particles.
    pos = []
    for trix in cand_nums:
        rel_frame = np.int64(frame_num - start_times[trix])
        pos.append(trajects[trix].pos()[rel_frame])
    return cand_nums[mark_unique_rows(np.array(pos))]
'''))
f('2-in-frame-if', (T, 'trajectories_in_frame', '''
def trajectories_in_frame(trajects, frame_num,
    start_times=None, end_times=None, segs=False):
    if start_times is None or end_times is None:
        spans = np.array([tr.time()[[0, -1]] for tr in trajects])
        start_times, end_times = spans[:,0], spans[:,1]

    end_frm = frame_num
    if segs:
        end_frm += 1

    cands = np.logical_and(start_times <= frame_num, end_frm <= end_times)
    cand_nums = np.flatnonzero(cands)
    if cand_nums.size > 0:
        frm_ixs = (frame_num - start_times[cand_nums]).astype(np.int64)
        pos = np.array([trajects[trix].pos(frm)
            for trix, frm in zip(cand_nums, frm_ixs)])
        cand_nums = cand_nums[mark_unique_rows(pos)]
    return cand_nums
'''))
f('2-snapshot', (T, 'take_snapshot', '''
def take_snapshot(trajects, frame, schema):
    if len(trajects) == 0:
        empty = {name: np.empty((0,) + shape)
            for name, shape in schema.items()}
        empty.update(time=frame, trajid=np.empty(0))
        return ParticleSnapshot(**empty)

    num = len(trajects)
    ref = trajects[0].as_dict()
    data = {}
    for name, shape in schema.items():
        data[name] = np.empty((num,) + shape, dtype=ref[name].dtype)
    trids = np.empty(num, dtype=np.int64)

    for ix, traj in enumerate(trajects):
        rel = int(frame - traj.time()[0])
        for name in data:
            data[name][ix] = getattr(traj, name)(rel)
        trids[ix] = traj.trajid()

    data['trajid'] = trids
    data['time'] = frame
    return ParticleSnapshot(**data)
'''))
f('2-snapshot-early', (T, 'take_snapshot', '''
def take_snapshot(trajects, frame, schema):
    kwds = {}
    if len(trajects) > 0:
        first_traj = trajects[0]
        for key, shape in schema.items():
            dtype = first_traj.__dict__['_' + key].dtype
            kwds[key] = np.empty((len(trajects),) + shape, dtype=dtype)
        names = list(kwds)
        kwds['trajid'] = np.array([tr.trajid() for tr in trajects],
            dtype=np.int64)
        for row, traj in enumerate(trajects):
            frm = int(frame - traj.time()[0])
            for key in names:
                kwds[key][row] = traj.__dict__[key](frm)
    else:
        for key, shape in schema.items():
            kwds[key] = np.empty((0,) + shape)
        kwds['trajid'] = np.empty(0)
    kwds['time'] = frame
    return ParticleSnapshot(**kwds)
'''))
# ---------------------------------------------------- interpolation.py
f('2-sel', (I, 'select_neighbs', '''
def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
                   companionship=None):
    if radius is None and num_neighbs is None:
        raise ValueError("Either radius or num_neighbs must be given.")

    rel_pos = tracer_pos[None, :, :] - interp_points[:, None, :]
    dists = np.sqrt((rel_pos**2).sum(axis=2))

    dists[dists <= 0] = np.inf
    if companionship is not None:
        has_comp, = np.nonzero(companionship >= 0)
        dists[has_comp, companionship[has_comp]] = np.inf

    if radius is not None:
        use_parts = dists < radius
    else:
        use_parts = np.zeros(dists.shape, dtype=np.bool)
        nearest = np.argsort(dists, axis=1)[:, :num_neighbs]
        np.put_along_axis(use_parts, nearest, True, axis=1)
        use_parts[np.isinf(dists)] = False

    dists[np.isinf(dists)] = 0.
    return dists, use_parts
'''))
f('2-sel-rows', (I, 'select_neighbs', '''
def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
                   companionship=None):
    dists = np.linalg.norm(tracer_pos[None, :, :]-interp_points[:, None, :],
                           axis=2)
    excluded = dists <= 0
    if companionship is not None:
        cif = companionship >= 0.
        excluded[np.nonzero(cif)[0], companionship[cif]] = True
    dists = np.where(excluded, np.inf, dists)

    if radius is None:
        if num_neighbs is None:
            raise ValueError("Either radius or num_neighbs must be given.")
        order = np.argsort(dists, axis=1)
        use_parts = np.zeros(dists.shape, dtype=bool)
        rows = np.arange(interp_points.shape[0])[:, None]
        use_parts[rows, order[:, :num_neighbs]] = True
        use_parts &= ~np.isinf(dists)
    else:
        use_parts = dists < radius

    dists = np.where(np.isinf(dists), 0., dists)
    return dists, use_parts
'''))
f('2-corr', (I, 'corrfun_interp', '''
def corrfun_interp(dists, use_parts, data, corrs_hist, corrs_bins):
    bin_ixs = np.digitize(dists[use_parts], corrs_bins) - 1
    weights = np.zeros(dists.shape + (data.shape[-1],))
    weights[use_parts] = corrs_hist[bin_ixs]
    weighted_sum = np.sum(weights * data[None, ...], axis=1)
    total_weight = np.sum(weights, axis=1)
    return weighted_sum / total_weight
'''))
f('2-rbf', (I, 'rbf_interp', '''
def rbf_interp(tracer_dists, dists, use_parts, data, epsilon=1e-2):
    def gaussian(r):
        return np.exp(-r**2 * epsilon)

    kernel = gaussian(tracer_dists)
    coeffs = np.zeros(dists.shape + (data.shape[-1],))
    for pix, used in enumerate(use_parts):
        neighbs, = np.nonzero(used)
        K = kernel[neighbs][:, neighbs]
        coeffs[pix, neighbs] = np.linalg.solve(K, data[neighbs])

    return (gaussian(dists)[..., None] * coeffs).sum(axis=1)
'''))
f('2-init', (I, 'GeneralInterpolant.__init__', '''
def __init__(self, method, num_neighbs=None, radius=None, param=None):
    if method not in ('subclass', 'rbf', 'corrfun'):
        raise NotImplementedError("Interpolation method %s not supported"
                                  % method)

    if method == 'corrfun' and param is None:
        raise ValueError("'corrfun' method requires param to be "
                         "an NPZ file name containing the corrs and"
                         "bins arrays.")

    if method == 'rbf':
        num_neighbs = 7 if num_neighbs is None else num_neighbs
        param = 1e5 if param is None else param
    elif method == 'corrfun':
        num_neighbs = 4 if num_neighbs is None else num_neighbs
        corr_file = np.load(param)
        self._corrs = corr_file['corrs']
        self._bins = corr_file['bins']

    self._method = method
    self._neighbs = num_neighbs
    self._par = param
    self._radius = radius
    self._upb = np.inf if radius is None else radius
'''))
f('2-set-data', (I, 'GeneralInterpolant.set_data_on_current_field', '''
def set_data_on_current_field(self, data):
    if data.ndim < 2:
        one_per_tracer = data.shape[0] == self.__tracers.shape[0]
        data = data[:, None] if one_per_tracer else data[None, :]
    self.__matched_data = None
    self.__data = data
'''))
f('2-select', (I, 'GeneralInterpolant._select_neighbs', '''
def _select_neighbs(self, interp_pts, comp=None):
    dists, active_neighbs = self.__field_tree.query(
        interp_pts, self._neighbs + 2, distance_upper_bound=self._upb)
    drop = dists <= 0.
    if comp is not None:
        drop |= active_neighbs == comp[:, None]

    dists = np.where(drop, np.inf, dists)
    active_neighbs = np.where(drop, len(self.__tracers), active_neighbs)
    order = np.argsort(dists, axis=1, kind='stable')
    closest = order[:, :self._neighbs]
    return (np.take_along_axis(dists, closest, axis=1),
        np.take_along_axis(active_neighbs, closest, axis=1))
'''))
f('2-forego', (I, 'GeneralInterpolant._forego_laziness', '''
def _forego_laziness(self):
    dists, active = self._select_neighbs(self.__interp_pts, self.__comp)
    has_data = active < self.__tracers.shape[0]
    self.__rel_pos = self._match(self.__tracers, active, has_data) \\
        - self.__interp_pts[:, None, :]
    self.__dists = dists
    self.__active_neighbs = active
    self.__has_data = has_data

    if self._method == 'rbf':
        self.__tracer_dists = select_neighbs(self.__tracers, self.__tracers,
            self._radius, self._neighbs)[0]

def _match(self, values, active, has_data):
    matched = np.zeros(active.shape + (values.shape[1],))
    matched[has_data] = values[active[has_data]]
    return matched
'''), (I, 'GeneralInterpolant._ensure_matched_data', '''
def _ensure_matched_data(self):
    if self.__matched_data is None:
        self.__matched_data = self._match(
            self.__data, self.__active_neighbs, self.__has_data)
    return self.__matched_data
'''))
f('2-ensure-cache', (I, 'GeneralInterpolant.current_dists', '''
def _ensure_cache(self):
    if self.__active_neighbs is None:
        self._forego_laziness()

def current_dists(self):
    self._ensure_cache()
    return self.__dists
'''), (I, 'GeneralInterpolant.current_active_neighbs', '''
def current_active_neighbs(self):
    self._ensure_cache()
    return self.__active_neighbs
'''), (I, 'GeneralInterpolant.current_relative_positions', '''
def current_relative_positions(self):
    self._ensure_cache()
    return self.__rel_pos
'''))
f('2-jac', (I, 'GeneralInterpolant.eulerian_jacobian', '''
def eulerian_jacobian(self, local_interp=None, eps=100e-6):
    if local_interp is None:
        local_interp = self.interpolate()

    ret = np.empty((self.__interp_pts.shape[0], 3, 3))
    for axis, shift in enumerate(np.eye(3) * eps):
        moved = self(self.__tracers, self.__interp_pts + shift, self.__data, self.__comp)
        ret[:,:,axis] = (moved - local_interp) / eps
    return ret
'''))
f('2-jac-stack', (I, 'GeneralInterpolant.eulerian_jacobian', '''
def eulerian_jacobian(self, local_interp=None, eps=100e-6):
    if local_interp is None:
        local_interp = self.interpolate()
    shifts = [np.r_[eps,0,0], np.r_[0,eps,0], np.r_[0,0,eps]]
    moved = [self(self.__tracers, self.__interp_pts + shift, self.__data, self.__comp)
        for shift in shifts]
    return (np.stack(moved, axis=2) - local_interp[:,:,None]) / eps
'''))
f('2-ndists', (I, 'GeneralInterpolant.neighb_dists', '''
def neighb_dists(self, tracer_pos, interp_points, companionship=None):
    dists, use_parts = select_neighbs(tracer_pos, interp_points,
        num_neighbs=self._neighbs, companionship=companionship)
    num_pts = interp_points.shape[0]
    ndists = np.zeros((num_pts, min(tracer_pos.shape[0], self._neighbs)))
    for row, dist, used in zip(ndists, dists, use_parts):
        chosen = dist[used]
        row[:len(chosen)] = chosen
    return ndists
'''))
f('2-save-int', (I, 'GeneralInterpolant.save_config', '''
def save_config(self, cfg):
    section = "Interpolant"
    if not cfg.has_section(section):
        cfg.add_section(section)
    self._write_option(cfg, section, 'radius', self._radius)
    self._write_option(cfg, section, 'num_neighbs', self._neighbs)
    self._write_option(cfg, section, 'param', self._par)
    cfg.set(section, 'method', self._method)

@staticmethod
def _write_option(cfg, section, key, val):
    if val is not None:
        cfg.set(section, key, str(val).replace('%', '%%'))
    else:
        cfg.remove_option(section, key)
'''))
f('2-idw-weights', (I, 'InverseDistanceWeighter.weights', '''
def weights(self, dists, use_parts, unused_marker=None):
    if unused_marker is None:
        unused_marker = len(self.field_positions())
    return np.where(use_parts == unused_marker, 0., dists**(-self._par))
'''))
f('2-idw-call', (I, 'InverseDistanceWeighter.__call__', '''
def __call__(self, tracer_pos, interp_points, data, companionship=None):
    num_tracers = len(tracer_pos)
    if num_tracers == 0:
        warnings.warn("No tracers in frame, interpolation returned zeros.")
        return np.zeros((interp_points.shape[0],
            data.shape[-1] if data.ndim > 1 else 1))

    dists, use_parts = select_neighbs(tracer_pos, interp_points,
        self._radius, self._neighbs, companionship)
    active = np.where(use_parts, np.arange(num_tracers), num_tracers)
    used_dists = np.where(use_parts, dists, np.inf)
    weights = self.weights(used_dists, active, num_tracers)
    return self._apply_weights(weights, data[None])
'''))
f('2-idw-call-upd', (I, 'InverseDistanceWeighter.__call__', '''
def __call__(self, tracer_pos, interp_points, data, companionship=None):
    if len(tracer_pos) == 0:
        warnings.warn("No tracers in frame, interpolation returned zeros.")
        ret_shape = data.shape[-1] if data.ndim > 1 else 1
        return np.zeros((interp_points.shape[0], ret_shape))

    dists, use_parts = select_neighbs(tracer_pos, interp_points,
        self._radius, self._neighbs, companionship)
    dists[~use_parts] = np.inf
    weights = dists**-self._par
    weights[~use_parts] = 0.
    return self._apply_weights(weights, data[None,...])
'''))
f('2-idw-jac', (I, 'InverseDistanceWeighter.eulerian_jacobian', '''
def eulerian_jacobian(self, local_interp=None, eps=None):
    if local_interp is None:
        local_interp = self.interpolate()
    dists = self.current_dists()
    missing = self.current_active_neighbs() == self.field_positions().shape[0]
    rel_pos = self.current_relative_positions()
    vel_diffs = self._ensure_matched_data() - local_interp[:,None,:]

    der_inv_dists = np.where(missing, 0., dists**-(self._par + 2))
    terms = der_inv_dists[:,:,None,None] * rel_pos[:,:,None,:] \\
        * vel_diffs[:,:,:,None]
    scale = self._par / self.__weights.sum(axis=1)
    return scale[:,None,None] * terms.sum(axis=1)
'''))
f('2-read-int', (I, 'read_interpolant', '''
def read_interpolant(conf_fname):
    parser = ConfigParser()
    parser.read(conf_fname)
    section = 'Interpolant'
    method = parser.get(section, 'method')

    readers = {'num_neighbs': parser.getint, 'radius': parser.getfloat,
        'param': parser.get if method == 'corrfun' else parser.getfloat}
    kwds = {}
    for key, read in readers.items():
        if parser.has_option(section, key):
            kwds[key] = read(section, key)
    return interpolant(method, **kwds)
'''))
f('2-read-int-fb', (I, 'read_interpolant', '''
def read_interpolant(conf_fname):
    parser = ConfigParser()
    parser.read(conf_fname)
    method = parser.get('Interpolant', 'method')
    num_neighbs = parser.getint('Interpolant', 'num_neighbs', fallback=None)
    radius = parser.getfloat('Interpolant', 'radius', fallback=None)
    get_param = parser.get if method == 'corrfun' else parser.getfloat
    param = get_param('Interpolant', 'param', fallback=None)
    return interpolant(method, num_neighbs, radius, param)
'''))
# --------------------------------------------------------------- io.py
f('2-listing', (IO, 'trajectories_acc', '''
def trajectories_acc(fname, first=None, last=None):
    dirname, basename = os.path.split(os.path.expanduser(fname))
    pattern = frame_file_pattern(basename)
    by_frame = {}
    for name in os.listdir(dirname or os.curdir):
        match = pattern.match(name)
        if match:
            by_frame[int(match.group(1))] = name

    trajects = []
    for frame in sorted(by_frame):
        if first is not None and frame < first:
            continue
        if last is not None and frame > last:
            continue
        path = os.path.join(dirname, by_frame[frame])
        table = np.loadtxt(path, usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
        age = table[:,-1]
        starts = np.nonzero(age == 0)[0]
        bounds = np.append(starts, table.shape[0])
        for s, e in zip(bounds[:-1], bounds[1:]):
            trajects.append(Trajectory(table[s:e,:3], table[s:e,3:6],
                age[s:e] + frame, len(trajects), accel=table[s:e,6:9]))
    return trajects
'''))
f('2-acc-split', (IO, 'trajectories_acc', '''
def trajectories_acc(fname, first=None, last=None):
    fname = os.path.expanduser(fname)
    dirname, basename = os.path.split(fname)
    trajects = []
    for frame, name in _list_frames(dirname, basename, first, last):
        table = np.loadtxt(os.path.join(dirname, name),
            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
        traj_starts = np.flatnonzero(table[:,-1] == 0)
        traj_ends = np.r_[traj_starts[1:], len(table)]
        for s, e in zip(traj_starts, traj_ends):
            rows = table[s:e]
            trajects.append(Trajectory(rows[:,0:3], rows[:,3:6],
                rows[:,9] + frame, len(trajects), accel=rows[:,6:9]))
    return trajects
'''), (IO, '+', '''
def _list_frames(dirname, basename, first, last):
    """Sorted list of (frame, file name) for the frames in range."""
    pattern = frame_file_pattern(basename)
    found = []
    for name in os.listdir(dirname or os.curdir):
        match = pattern.match(name)
        if match is None:
            continue
        frame = int(match.group(1))
        if (first is None or frame >= first) and \\
            (last is None or frame <= last):
            found.append((frame, name))
    return sorted(found)
'''))
f('2-frames-it', (IO, 'FramesIterator.__next__', '''
def __next__(self):
    if self._frmix >= len(self._frame_nums):
        raise StopIteration
    frame_num = self._frame_nums[self._frmix]
    frame = self._read_frame(frame_num)
    self._frmix += 1
    return frame_num, frame
'''))
f('2-frames-init', (IO, 'FramesIterator.__init__', '''
def __init__(self, fname_tmpl, fmt, skip, first=None, last=None):
    self._frmix = 0
    self._tmpl = fname_tmpl
    self._fmt = fmt
    self._skip = skip
    self._ncols = sum(np.prod(fmt[fld].shape, dtype=int) for fld in fmt.names)

    dirname, basename = os.path.split(fname_tmpl)
    pattern = frame_file_pattern(basename)
    matches = (pattern.match(name)
        for name in os.listdir(dirname or os.curdir))
    nums = [int(m.group(1)) for m in matches if m is not None]
    if first is not None:
        nums = [n for n in nums if n >= first]
    if last is not None:
        nums = [n for n in nums if n <= last]
    self._frame_nums = sorted(nums)

def _read_frame(self, num):
    link = lambda text: int(float(text))
    return np.atleast_1d(np.loadtxt(self._tmpl % num, dtype=self._fmt,
        skiprows=self._skip, usecols=range(self._ncols),
        converters={0: link, 1: link}))
'''))
f('2-single', (IO, 'SingleFileIterator.__next__', '''
def __next__(self):
    lines = []
    line = self._f.readline()
    if line == '':
        raise StopIteration # EOF
    while line != '' and line.strip() != '':
        lines.append(line)
        line = self._f.readline()

    frame_num = self._frmix
    self._frmix += 1
    if not lines:
        return frame_num, np.empty(0, dtype=self._fmt)
    return frame_num, self._read_frame(StringIO(''.join(lines)))
'''))
f('2-single-strip', (IO, 'SingleFileIterator.__next__', '''
def __next__(self):
    lines = []
    eof = True
    for line in self._f:
        eof = False
        if not line.strip():
            break
        lines.append(line)
    if eof:
        raise StopIteration
    if lines:
        frame = self._read_frame(StringIO("".join(lines)))
    else:
        frame = np.empty(0, dtype=self._fmt)
    num = self._frmix
    self._frmix = num + 1
    return num, frame
'''))
f('2-collect-part', (IO, 'collect_particles', '''
def collect_particles(fname_tmpl, frame, path_seg=False):
    fname_tmpl = os.path.expanduser(fname_tmpl)
    selected = []
    path_age = 0
    path = fname_tmpl % frame
    while os.path.exists(path):
        table = np.loadtxt(path, usecols=(0,1,2,3,4,5,33), ndmin=2)
        age = table[:,-1]
        if path_seg is True:
            is_seg = (age == path_age) & (np.roll(age, -1) == path_age + 1)
            segs, = np.nonzero(is_seg)
            in_frame = np.stack((table[segs], table[segs + 1]))
        else:
            in_frame = table[age == path_age]
        selected.append(in_frame)
        path_age += 1
        path = fname_tmpl % (frame - path_age)

    if path_seg is True:
        all_rows = np.concatenate(selected, axis=1)
        uniq = mark_unique_rows(all_rows[0])
        return all_rows[:,uniq]
    all_rows = np.concatenate(selected)
    return all_rows[mark_unique_rows(all_rows)]
'''))
f('2-mat', (IO, 'trajectories_mat', '''
def trajectories_mat(fname):
    data = io.loadmat(os.path.expanduser(fname))
    names = [s for s in data.keys()
        if not (s.startswith('__') or s == 'directory')]
    raw = data[names[0]][:,0]

    def metres(rec, names):
        return np.hstack([rec[n] for n in names]) / 1000.

    return [Trajectory(
        metres(rec, ('xf', 'yf', 'zf')), metres(rec, ('uf', 'vf', 'wf')),
        rec['t'].squeeze(), rec['trajid'][0,0],
        accel=metres(rec, ('axf', 'ayf', 'azf'))) for rec in raw]
'''))
f('2-ptvis-list', (IO, 'trajectories_ptvis', '''
def trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
    traj_min_len=None):
    return list(iter_trajectories_ptvis(fname, first=first, last=last,
        frate=frate, xuap=xuap, traj_min_len=traj_min_len))
'''))
f('2-traj', (IO, 'trajectories', '''
def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
    iter_allowed=False):
    fmt = infer_format(fname) if fmt is None else fmt

    # These formats filter by themselves.
    if fmt in ('ptvis', 'xuap'):
        if fmt == 'ptvis' and iter_allowed:
            return iter_trajectories_ptvis(fname, first, last, frate,
                traj_min_len=traj_min_len)
        traj = trajectories_ptvis(fname, first, last, frate,
            xuap=(fmt == 'xuap'), traj_min_len=traj_min_len)
        if fmt == 'ptvis':
            return traj
    elif fmt == 'mat':
        traj = trajectories_mat(fname)
    elif fmt == 'npz':
        traj = load_trajectories(fname, first, last)[0]
    elif fmt == 'acc':
        traj = trajectories_acc(fname, first, last)
    elif fmt == 'hdf':
        end = last + 1 if last is not None else None
        scene = Scene(fname, (first, end))
        traj = (t for t in scene.iter_trajectories() if len(t) > 0)
    else:
        raise ValueError("Unknown trajectories format: %s" % fmt)

    min_len = 2 if traj_min_len is None else traj_min_len
    long_enough = (tr for tr in traj if len(tr) >= min_len)
    return long_enough if iter_allowed else list(long_enough)
'''))
f('2-infer', (IO, 'infer_format', '''
def infer_format(fname):
    if fname.endswith('mat'):
        return 'mat'
    if fname.endswith('/'):
        return 'npz'
    if fname.endswith('.txt') or 'ptv_is' in fname:
        return 'ptvis'
    if 'xuap' in fname:
        return 'xuap'
    if fname.endswith(('h5', 'hdf')):
        return 'hdf'
    return 'acc'
'''))
f('2-generic', (IO, 'collect_particles_generic', '''
def collect_particles_generic(trajects, frame, path_seg=False):
    selected = []
    for traj in trajects:
        times = traj.time()
        if path_seg is True:
            found = (times[:-1] == frame) & (times[1:] == frame + 1)
        else:
            found = times == frame
        if not found.any():
            continue
        t = np.nonzero(found)[0][0]
        if path_seg is True:
            selected.append(traj[t:t + 2][:,None,:])
        else:
            selected.append(traj[t])

    if not selected:
        shape = (2,0,8) if path_seg is True else (0,8)
        return np.empty(shape)

    if path_seg is not True:
        rows = np.vstack(selected)
        return rows[mark_unique_rows(rows)]
    layers = np.concatenate(selected, axis=1)
    return layers[:,mark_unique_rows(layers[0])]
'''))
f('2-frame-data', (IO, 'read_frame_data', '''
def read_frame_data(conf_fname):
    parser = ConfigParser()
    parser.read(conf_fname)
    particle = Particle(
        parser.getfloat("Particle", "diameter"),
        parser.getfloat("Particle", "density"))
    first_frame = parser.getint("Scene", "frame")
    frate = parser.getfloat("Scene", "frame rate")

    def read_set(key):
        trjs = trajectories(parser.get("Scene", key), first_frame,
            first_frame + 2, frate)
        active = trajectories_in_frame(trjs, first_frame, segs=True)
        return [trjs[ix] for ix in active], trjs[0].schema()

    tracers, tracer_schema = read_set("tracer_file")
    parts, part_schema = read_set("part_file")

    def make_frame(num):
        frame = Frame()
        frame.tracers = take_snapshot(tracers, num, tracer_schema)
        frame.particles = take_snapshot(parts, num, part_schema)
        return frame

    return particle, frate, make_frame(first_frame), make_frame(first_frame + 1)
'''))
f('2-save-npz', (IO, 'save_trajectories', '''
def save_trajectories(output_dir, trajects, per_traject_adds, **kwds):
    if not os.path.exists(output_dir):
        os.makedirs(output_dir)
    for traj in trajects:
        trid = traj.trajid()
        arrays = {'traj:' + name: val for name, val in traj.as_dict().items()}
        arrays.update((name, vals[trid])
            for name, vals in per_traject_adds.items())
        path = os.path.join(output_dir, 'traj_%d' % trid)
        np.savez(path, **arrays)
    for name in kwds:
        np.save(os.path.join(output_dir, name), kwds[name])
'''))
f('2-table', (IO, 'save_particles_table', '''
def save_particles_table(filename, trajects, trim=None):
    table = None
    trim = 0 if trim is None else trim
    outfile = tables.open_file(filename, mode='w')
    bounds_tab = outfile.create_table('/', 'bounds',
        np.dtype([('trajid', int), ('first', int), ('last', int)]))

    for traj in trajects:
        length = len(traj) - 2 * trim
        if length <= 0:
            continue
        if table is None:
            fields = [('trajid', int)]
            for field, (tp, shape) in traj.ext_schema().items():
                fields.append((field, tp, shape))
            dtype = np.dtype(fields)
            table = outfile.create_table('/', 'particles', dtype)
        arr = np.empty(length, dtype=dtype)
        arr['trajid'] = traj.trajid()
        for name, val in traj.as_dict().items():
            arr[name] = val[trim:len(traj) - trim]
        table.append(arr)
        times = arr['time']
        bounds_tab.append([(traj.trajid(), times[0], times[-1])])

    for column in (table.cols.trajid, table.cols.time, bounds_tab.cols.trajid):
        column.create_index()
    outfile.flush()
    outfile.close()
'''))
f('2-frames-hdf', (IO, 'save_frames_hdf', '''
def save_frames_hdf(filename, frames):
    table = None
    outfile = tables.open_file(filename, mode='w')
    min_pos = np.full(3, np.inf)
    max_pos = np.full(3, -np.inf)
    starts, ends = {}, {}
    for frame in frames:
        if len(frame) == 0:
            continue
        if table is None:
            fields = [('time', int)] + [(field,) + desc \\
                for field, desc in frame.ext_schema().items()]
            dtype = np.dtype(fields)
            table = outfile.create_table('/', 'particles', dtype)
        min_pos = np.minimum(min_pos, frame.pos().min(axis=0))
        max_pos = np.maximum(max_pos, frame.pos().max(axis=0))

        arr = np.empty(len(frame), dtype=dtype)
        for k, v in frame.as_dict().items():
            arr[k] = v
        arr['time'] = frame.time()
        table.append(arr)

        for trid in frame.trajid():
            starts.setdefault(trid, frame.time())
            ends[trid] = frame.time()

    table._v_attrs.min_pos = min_pos
    table._v_attrs.max_pos = max_pos
    table.cols.trajid.create_index()
    table.cols.time.create_index()

    bounds_tab = outfile.create_table('/', 'bounds',
        np.dtype([('trajid', int), ('first', int), ('last', int)]))
    for trid in starts:
        bounds_tab.append([(trid, starts[trid], ends[trid])])
    bounds_tab.cols.trajid.create_index()
    outfile.flush()
    outfile.close()
'''))
f('2-table-read', (IO, 'trajectories_table', '''
def trajectories_table(fname, first=None, last=None):
    with tables.open_file(fname, mode='r') as infile:
        table = infile.get_node('/particles')
        conds = ['(trajid == trid)']
        if first is not None:
            conds.append("(time >= %d)" % first)
        if last is not None:
            conds.append("(time <= %d)" % last)
        query = ' & '.join(conds)
        trajects = []
        for trid in np.unique(table.col('trajid')):
            rows = table.read_where(query)
            kwds = {}
            for field in rows.dtype.fields:
                if field != 'trajid':
                    kwds[field] = rows[field]
            trajects.append(Trajectory(trajid=trid, **kwds))
    return trajects
'''))
f('2-load', (IO, 'load_trajectories', '''
def load_trajectories(res_dir, first=None, last=None):
    res_dir = os.path.expanduser(res_dir)
    names = [n for n in sorted(os.listdir(res_dir)) if n.endswith('.npz')]
    trajects = []
    adds = {}
    for name in names:
        data = np.load(os.path.join(res_dir, name))
        trajid = int(name.split('.')[0][len('traj_'):])
        kwds = {}
        for key in data.files:
            if not key.startswith('traj:'):
                adds.setdefault(key, {})[trajid] = data[key]
                continue
            kwds[key[len('traj:'):]] = data[key]

        if first is not None or last is not None:
            time = kwds['time']
            in_range = np.ones(time.shape, dtype=bool)
            if first is not None:
                in_range &= time >= first
            if last is not None:
                in_range &= time <= last
            if not in_range.any():
                continue
            kwds = {key: val[in_range] for key, val in kwds.items()}

        trajects.append(Trajectory(trajid=trajid, **kwds))
    return trajects, adds
'''))
# --------------------------------------------------------- sequence.py
f('2-subrange', (Q, 'Sequence.subrange', '''
def subrange(self):
    times = [tr.time() for tr in self.particle_trajectories()]
    earliest = np.min([t.min() for t in times])
    latest = np.max([t.max() for t in times])
    first, last = self._rng
    return max(earliest, first), min(latest, last)
'''))
f('2-bounds', (Q, 'Sequence.particle_trajectories', '''
def particle_trajectories(self):
    if self.__ptraj is None:
        self.__ptraj = self._psel(self._read(self._ptmpl, self._pfmt))
        self.__pstarts, self.__pends = self._time_bounds(self.__ptraj)
    return self.__ptraj

def _read(self, tmpl, fmt):
    first, last = self._rng
    return trajectories(tmpl, first, last, self.frate, fmt, self._minlen)

@staticmethod
def _time_bounds(trajs):
    starts = np.array([tr.time()[0] for tr in trajs])
    ends = np.array([tr.time()[-1] for tr in trajs])
    return starts, ends
'''), (Q, 'Sequence.tracer_trajectories', '''
def tracer_trajectories(self):
    if self.__ttraj is None:
        ttraj = self._tsel(self._read(self._trtmpl, self._trfmt))
        if self._smooth:
            ttraj = [tr.smoothed() for tr in ttraj]
        self.__ttraj = ttraj
        self.__tstarts, self.__tends = self._time_bounds(ttraj)
    return self.__ttraj
'''))
f('2-iter-sub', (Q, 'Sequence.iter_subrange', '''
def iter_subrange(self, first, last):
    parts = self.particle_trajectories()
    part_schema = parts[0].schema()
    tracers = self.tracer_trajectories()
    tracer_schema = tracers[0].schema()

    for frame_num in range(first, last):
        active_tracers = [tracers[t] for t in trajectories_in_frame(
            tracers, frame_num, self.__tstarts, self.__tends, segs=True)]
        active_parts = [parts[t] for t in trajectories_in_frame(
            parts, frame_num, self.__pstarts, self.__pends, segs=True)]

        pair = []
        for num in (frame_num, frame_num + 1):
            frame = Frame()
            frame.tracers = take_snapshot(active_tracers, num, tracer_schema)
            frame.particles = take_snapshot(active_parts, num, part_schema)
            pair.append(frame)
        yield tuple(pair)
'''))
f('2-map', (Q, 'Sequence.map_trajectories', '''
def map_trajectories(self, func, subrange=None, history=False, args=()):
    first, last = self._rng if subrange is None else subrange
    res = {}
    first_frames = {}
    for tr in self.particle_trajectories():
        t = tr.time()[:-1]
        t_in = t[(first <= t) & (t < last)]
        if len(t_in) == 0:
            continue
        res[tr.trajid()] = [None] * len(t_in)
        first_frames[tr.trajid()] = t_in[0]

    for frame, next_frame in self.iter_subrange(first, last):
        fargs = [self, frame, next_frame]
        if history:
            fargs.append(res)
        now = frame.particles.time()
        for trid, val in func(*fargs, *args).items():
            res[trid][int(now - first_frames[trid])] = val

    return {trid: np.array(vals) for trid, vals in res.items()}
'''))
f('2-save-cfg', (Q, 'Sequence.save_config', '''
def save_config(self, cfg):
    for section in ("Particle", "Scene"):
        if not cfg.has_section(section):
            cfg.add_section(section)

    def escape(tmpl):
        return tmpl.replace('%', '%%')

    first, last = self._rng
    values = {
        ("Particle", "diameter"): str(self.part.diam),
        ("Particle", "density"): str(self.part.density),
        ("Scene", "frame rate"): str(self.frate),
        ("Scene", "first frame"): str(first),
        ("Scene", "last frame"): str(last - 1),
        ("Scene", "apply smoothing"): "yes" if self._smooth else "no",
        ("Scene", "trajectory minimal length"): str(self._minlen),
        ("Scene", "tracers file"): escape(self._trtmpl),
        ("Scene", "particles file"): escape(self._ptmpl),
    }
    for (section, key), value in values.items():
        cfg.set(section, key, value)
'''))
f('2-read-seq', (Q, 'read_sequence', '''
def read_sequence(conf_fname, smooth=None, traj_min_len=None):
    parser = ConfigParser()
    parser.read(conf_fname)

    particle = Particle(
        parser.getfloat("Particle", "diameter"),
        parser.getfloat("Particle", "density"))
    first = parser.getint("Scene", "first frame")
    last = parser.getint("Scene", "last frame") + 1

    if smooth is None:
        smooth = parser.getboolean("Scene", "apply smoothing", fallback=False)
    if traj_min_len is None:
        traj_min_len = parser.getint("Scene", "trajectory minimal length",
            fallback=0)

    return Sequence((first, last), parser.getfloat("Scene", "frame rate"),
        particle, parser.get("Scene", "particles file"),
        parser.get("Scene", "tracers file"), smooth, traj_min_len)
'''))
# --------------------------------------------------------- analysis.py
f('2-comp', (A, 'companion_indices', '''
def companion_indices(trids, companions):
    comp = np.full_like(companions, -1)
    tracer_ix, part_ix = np.nonzero(trids[:,None] == companions[None,:])
    comp[part_ix] = tracer_ix
    return comp
'''))
f('2-analyse', (A, 'FluidVelocitiesAnalyser.analyse', '''
def analyse(self, frame, next_frame):
    tracers, particles = frame.tracers, frame.particles
    comp = None
    if particles.has_property('companion'):
        comp = companion_indices(tracers.trajid(), particles.companion())

    self._interp.set_scene(tracers.pos(), particles.pos(),
        data=tracers.velocity(), companionship=comp)
    fluid_vel = self._interp.interpolate()
    return [fluid_vel, particles.velocity() - fluid_vel]
'''))
f('2-analysis', (A, 'analysis', '''
def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
    fields = [('trajid', int), ('time', int)]
    for analyser in analysers:
        fields += analyser.descr()
    dtype = np.dtype(fields)

    outfile = tables.open_file(analysis_file, "w", title="Analysis results.")
    table = outfile.create_table('/', 'analysis', dtype)
    table.attrs['config'] = conf_file
    table.attrs['trajects'] = scene.get_particles_path()

    for frame, next_frame in scene.iter_segments(frame_range):
        table.append(_analyse_frame(frame, next_frame, analysers, dtype))

    for column in (table.cols.trajid, table.cols.time):
        column.create_index()
    outfile.flush()
    outfile.close()
'''), (A, '+', '''
def _analyse_frame(frame, next_frame, analysers, dtype):
    particles = frame.particles
    arr = np.empty(len(particles), dtype=dtype)
    arr['trajid'] = particles.trajid()
    arr['time'] = particles.time()
    for analyser in analysers:
        results = analyser.analyse(frame, next_frame)
        for (name, _, _), res in zip(analyser.descr(), results):
            arr[name] = res
    return arr
'''))
# --------------------------------------------------------- an_scene.py
f('2-an-collect', (AN, 'AnalysedScene.collect', '''
def collect(self, keys, where=None):
    particles = self._scene.get_particles()
    pkeys = set(particles.keys())
    part_conds, an_conds = [], []
    for key, rng in (where or {}).items():
        conds = part_conds if key in pkeys else an_conds
        conds.append(gen_query_string(key, rng))

    part_cond = ' & '.join(part_conds) if part_conds else None
    an_cond = ' & '.join(an_conds) if an_conds else None

    res = {k: [] for k in keys}
    for (tp, p_arr), (ta, a_arr) in zip(
        particles._iter_frame_arrays(part_cond),
        self._iter_frame_arrays(an_cond)):
        shared = set(p_arr['trajid']) & set(a_arr['trajid'])
        p_arr = self._rows_of(p_arr, shared)
        a_arr = self._rows_of(a_arr, shared)
        for k in res:
            source = p_arr if k in pkeys else a_arr
            res[k].append(source[k])

    return [np.concatenate(res[k], axis=0) for k in keys]

@staticmethod
def _rows_of(arr, trajids):
    if len(arr) == 0:
        return arr
    return arr[np.array([tr in trajids for tr in arr['trajid']])]
'''))
f('2-an-traj', (AN, 'AnalysedScene.trajectory_by_id', '''
def trajectory_by_id(self, trid):
    traj = self._scene.get_particles().trajectory_by_id(trid)
    kwds = {k: v[:-1] for k, v in traj.as_dict().items()}
    arr = self._table.read_where('(trajid == trid)')
    kwds.update((field, arr[field]) for field in arr.dtype.fields
        if field not in ('trajid', 'time'))
    return Trajectory(trajid=trid, **kwds)
'''))
f('2-an-init', (AN, 'AnalysedScene.__init__', '''
def __init__(self, analysis_file):
    self._file = tables.open_file(analysis_file, "r")
    self._table = self._file.get_node('/analysis')
    self._scene = read_dual_scene(self._table.attrs['config'])

    desc = self._table.coldescrs
    self._keys = [name for name in self._table.colnames
        if name not in ('trajid', 'time')]
    self._shapes = [desc[name].shape[0] if desc[name].shape else 1
        for name in self._keys]
'''))
# ---------------------------------------------- smoothing, pairs, graphics
f('2-sg', (SM, 'savitzky_golay', '''
def savitzky_golay(trajs, fps, window_size, order):
    try:
        window_size = np.abs(np.int64(window_size))
        order = np.abs(np.int64(order))
    except ValueError:
        raise ValueError("window_size and order have to be of type int")
    if window_size % 2 != 1 or window_size < 1:
        raise TypeError("window_size size must be a positive odd number")
    if window_size < order + 2:
        raise TypeError("window_size is too small for the polynomials order")

    half = (window_size - 1) // 2
    skip_keys = ('pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time',
        'trajid')
    b = np.array([[k**i for i in range(order + 1)]
        for k in range(-half, half + 1)])
    m = np.vstack((np.linalg.pinv(b), np.zeros((4, window_size))))
    kernels = (m[0], m[1] * fps, m[2] * (2 * fps**2), m[3] * (6 * fps**3))

    new_trajs = []
    for traj in trajs:
        if len(traj) < window_size:
            continue
        padded = [_pad(y, half) for y in traj.pos().T]
        newpos, newvel, newacc, jerk = [
            np.array([np.convolve(k[::-1], y, mode='valid') for y in padded]).T
            for k in kernels]

        nextvel = np.vstack((np.zeros(3),
            newvel + newacc/fps + jerk/2./fps**2))[:-1]
        nextacc = np.vstack((np.zeros(3), newacc + jerk/fps))[:-1]
        newtraj = Trajectory(newpos, newvel, traj.time(), traj.trajid(),
            accel=newacc, vel_pp=nextvel, acc_pp=nextacc)
        for k, v in traj.as_dict().items():
            if k in skip_keys:
                continue
            newtraj.create_property(k, v)
        new_trajs.append(newtraj)
    return new_trajs

def _pad(y, half):
    firstvals = y[0] - np.abs(y[1:half+1][::-1] - y[0])
    lastvals = y[-1] + np.abs(y[-half-1:-1][::-1] - y[-1])
    return np.concatenate((firstvals, y, lastvals))
'''))
f('2-pdf', (G, 'pdf_bins', '''
def pdf_bins(data, num_bins, log_bins=False):
    if not log_bins:
        return np.histogram(data, bins=num_bins, density=True)
    data = data[data > 0]
    low, high = np.log10(data.min()), np.log10(data.max())
    edges = np.logspace(low, high, num_bins + 1)
    return np.histogram(data, bins=edges, density=True)
'''))
f('2-disp', (G, 'generalized_histogram_disp', '''
def generalized_histogram_disp(hist, bin_edges, log_bins=False,
    log_density=False, marker='o'):
    plotters = {
        (True, True): pl.loglog, (True, False): pl.semilogx,
        (False, True): pl.semilogy, (False, False): pl.plot}
    plotter = plotters[bool(log_bins), bool(log_density)]
    lines = plotter(bin_edges, hist, marker)
    pl.ylabel("Probability density [-]")
    return lines
'''))
f('2-disp-if', (G, 'generalized_histogram_disp', '''
def generalized_histogram_disp(hist, bin_edges, log_bins=False,
    log_density=False, marker='o'):
    if log_bins and log_density:
        draw = pl.loglog
    elif log_bins:
        draw = pl.semilogx
    elif log_density:
        draw = pl.semilogy
    else:
        draw = pl.plot
    lines = draw(bin_edges, hist, marker)
    pl.ylabel("Probability density [-]")
    return lines
'''))
f('2-pdf-graph', (G, 'pdf_graph', '''
def pdf_graph(data, num_bins, log=False, log_density=False, marker='o'):
    density, edges = pdf_bins(data, num_bins, log_bins=log)
    starts = edges[:-1]
    generalized_histogram_disp(density, starts, log_bins=log,
        log_density=log_density, marker='-' + marker)
'''))
f('2-plotv', (G, 'plot_vectors', '''
def plot_vectors(vecs, indep, xlabel, fig=None, marker='-',
    ytick_dens=None, yticks_format=None, unit_str="", common_scale=None,
    arrows=None, arrow_color=None):
    if fig is None:
        fig = pl.figure(None)
    else:
        fig = pl.figure(fig.number)
    u = np.zeros(len(vecs))
    labels = ("X " + unit_str, "Y" + unit_str, "Z" + unit_str)
    for ix, label in enumerate(labels):
        comp = vecs[:,ix]
        pl.subplot(3, 1, ix + 1)
        pl.plot(indep, comp, marker)
        ax = pl.gca()
        ax.get_xaxis().set_visible(False)
        pl.grid()
        pl.ylabel(label)
        if yticks_format is not None:
            ax.get_yaxis().set_major_formatter(yticks_format)
        if common_scale is not None:
            pl.ylim(np.r_[-common_scale, common_scale] + comp.mean())
        if ytick_dens is not None:
            pl.yticks(np.linspace(comp.min(), comp.max(), ytick_dens))
        if arrows is not None:
            pl.quiver(indep, comp, u, arrows[:,ix], scale=30, width=1e-3,
                color=arrow_color)
    pl.gca().get_xaxis().set_visible(True)
    pl.xlabel(xlabel)
    return fig
'''))
f('2-pairs', (P, 'particle_pairs', '''
def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
    pair_trids = np.full_like(time_points, -1)
    pair_time = np.full_like(time_points, -1)

    wanted = np.unique(trajids)
    prim_traj = [t for t in primary_trajects if t.trajid() in wanted]
    frames = np.empty_like(time_points)
    found = np.zeros(len(trajids), dtype=bool)
    for traj in prim_traj:
        coords = trajids == traj.trajid()
        frames[coords] = traj.time(time_points[coords])
        found |= coords

    schema = prim_traj[0].schema()
    for frame_num in np.unique(frames[found]):
        coord_locator = found & (frames == frame_num)
        ids = np.unique(trajids[coord_locator])
        prim_in_frame = [t for t in prim_traj if t.trajid() in ids]
        sec_ixs = trajectories_in_frame(secondary_trajects, frame_num,
            segs=True)
        sec_in_frame = [secondary_trajects[ix] for ix in sec_ixs]
        if not sec_in_frame:
            continue

        prim = take_snapshot(prim_in_frame, frame_num, schema)
        sec = take_snapshot(sec_in_frame, frame_num, sec_in_frame[0].schema())
        diff = prim.pos()[:,None,:] - sec.pos()[None,:,:]
        closest = np.argmin((diff**2).sum(axis=2), axis=1)
        row_of = [np.nonzero(prim.trajid() == trid)[0][0]
            for trid in trajids[coord_locator]]
        pair_trids[coord_locator] = sec.trajid()[closest[row_of]]
        pair_time[coord_locator] = frame_num

    found_sec = np.unique(pair_trids)
    for traj in secondary_trajects:
        if traj.trajid() in found_sec:
            pair_time[pair_trids == traj.trajid()] -= int(traj.time(0))
    return pair_trids, pair_time
'''))
f('2-pairs-norm', (P, 'particle_pairs', '''
def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
    pair_trids = np.full_like(time_points, -1)
    pair_time = np.full_like(time_points, -1)
    unique_prim = np.unique(trajids)
    prim_traj = [t for t in primary_trajects if t.trajid() in unique_prim]

    frames = np.empty_like(time_points)
    for traj in prim_traj:
        traj_coords = trajids == traj.trajid()
        frames[traj_coords] = traj.time(time_points[traj_coords])
    found = np.isin(trajids, [t.trajid() for t in prim_traj])
    unique_frames = np.unique(frames[found])
    schema = prim_traj[0].schema()

    for frame_num in unique_frames:
        coord_locator = found & (frames == frame_num)
        prim_in_frame_ids = np.unique(trajids[coord_locator])
        prim_in_frame = [t for t in prim_traj
            if t.trajid() in prim_in_frame_ids]
        prim_parts = take_snapshot(prim_in_frame, frame_num, schema)

        sec_in_frame = [secondary_trajects[tix] for tix in
            trajectories_in_frame(secondary_trajects, frame_num, segs=True)]
        if len(sec_in_frame) > 0:
            sec_parts = take_snapshot(sec_in_frame, frame_num,
                sec_in_frame[0].schema())
            dists = np.linalg.norm(prim_parts.pos()[:,None,:]
                - sec_parts.pos()[None,:,:], axis=2)
            pair_ixs = dists.argmin(axis=1)
            prim_ids = prim_parts.trajid()
            prim_ixs = [np.nonzero(prim_ids == trid)[0][0]
                for trid in trajids[coord_locator]]
            pair_trids[coord_locator] = sec_parts.trajid(pair_ixs[prim_ixs])
            pair_time[coord_locator] = frame_num

    unique_sec = np.unique(pair_trids)
    for traj in secondary_trajects:
        trid = traj.trajid()
        if trid not in unique_sec:
            continue
        pair_time[pair_trids == trid] -= int(traj.time(0))
    return pair_trids, pair_time
'''))
