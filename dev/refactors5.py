"""
A fifth set of edits that keep the behaviour.  Not read by any check.
"""
from refactors2 import S, T, I, IO, Q, A, AN, SM, P, G
REF5 = []


def f(name, *edits):
    REF5.append((name, edits))


# ------------------------------------------------------------ scene
f('5-scene-range', (S, 'Scene.set_frame_range', '''
def set_frame_range(self, frame_range):
    first, last = (None, None) if frame_range is None else frame_range
    conds = []
    if first is not None:
        conds.append("(time >= %d)" % first)
    if last is not None:
        conds.append("(time < %d)" % last)
    self._frame_limit = ' & '.join(conds)

    if first is None or last is None:
        times = self._table.col('time')
        if first is None:
            first = int(times.min())
        if last is None:
            last = int(times.max()) + 1
    self._first, self._last = first, last
'''))
f('5-scene-range-fstr', (S, 'Scene.set_frame_range', '''
def set_frame_range(self, frame_range):
    if frame_range is None:
        frame_range = (None, None)
    first, last = frame_range
    t = None
    limits = []
    if first is not None:
        limits.append(f"(time >= {first:d})")
    else:
        t = self._table.col('time')
        first = int(np.min(t))
    if last is not None:
        limits.append(f"(time < {last:d})")
    else:
        t = self._table.col('time') if t is None else t
        last = int(np.max(t)) + 1
    self._first = first
    self._last = last
    self._frame_limit = ' & '.join(limits)
'''))
f('5-scene-keys', (S, ('''        self._keys = []
        self._shapes = []
        desc = self._table.coldescrs
        
        for name in self._table.colnames:
            if name in filt:
                continue
            self._keys.append(name)
            shape = desc[name].shape
            self._shapes.append(1 if len(shape) == 0 else shape[0])
''',), '''        desc = self._table.coldescrs
        self._keys = [n for n in self._table.colnames if n not in filt]
        self._shapes = [desc[n].shape[0] if desc[n].shape else 1 \\
            for n in self._keys]
'''))
f('5-scene-traj-helper', (S, 'Scene.trajectory_by_id', '''
def trajectory_by_id(self, trid):
    conds = ['(trajid == trid)']
    if self._frame_limit:
        conds.append(self._frame_limit)
    rows = self._table.read_where(' & '.join(conds), {'trid': trid})
    return self._as_trajectory(trid, rows)

@staticmethod
def _as_trajectory(trid, rows):
    """Make a Trajectory of the given ID from its table rows."""
    data = {name: rows[name] for name in rows.dtype.names if name != 'trajid'}
    return Trajectory(trajid=trid, **data)
'''), (S, 'Scene.iter_trajectories', '''
def iter_trajectories(self):
    for trid in self._trids:
        yield self.trajectory_by_id(trid)
'''))
f('5-scene-snap-helper', (S, '+', '''
def _make_snapshot(arr, t):
    props = dict((name, arr[name]) for name in arr.dtype.fields)
    props['time'] = t
    return ParticleSnapshot(**props)
'''), (S, 'Scene.iter_frames', '''
def iter_frames(self):
    for t, arr in self._iter_frame_arrays():
        yield _make_snapshot(arr, t)
'''), (S, 'Scene.frame_by_time', '''
def frame_by_time(self, t):
    return _make_snapshot(self._table.read_where('(time == t)'), t)
'''))
f('5-scene-segs', (S, 'Scene.iter_segments', '''
def iter_segments(self):
    for (t, arr), (tn, next_arr) in pairwise(self._iter_frame_arrays()):
        # find continuing trajectories:
        stay = np.isin(arr['trajid'], next_arr['trajid'])
        stay_next = np.isin(next_arr['trajid'], arr['trajid'])
        arr, next_arr = arr[stay], next_arr[stay_next]

        # The particles may be in another order in the next frame.
        rank = np.argsort(np.argsort(arr['trajid']))
        next_arr = next_arr[np.argsort(next_arr['trajid'])][rank]

        frames = []
        for time, data in ((t, arr), (tn, next_arr)):
            kwds = dict((field, data[field]) for field in data.dtype.fields \\
                if field != 'time')
            kwds['time'] = time
            frames.append(ParticleSnapshot(**kwds))
        yield tuple(frames)
'''))
f('5-scene-segs-filter', (S, ('''            in_arr = np.array([True if tr in trajids else False \\
                for tr in arr_trids])
            in_next_arr = np.array([True if tr in trajids else False \\
                for tr in next_arr_trids])
            
            if len(in_arr) > 0:
                arr = arr[in_arr]
            if len(in_next_arr) > 0:
                next_arr = next_arr[in_next_arr]
''',), '''            if len(arr) > 0:
                arr = arr[[tr in trajids for tr in arr_trids]]
            if len(next_arr) > 0:
                next_arr = next_arr[[tr in trajids for tr in next_arr_trids]]
'''))
f('5-scene-collect', (S, 'Scene.collect', '''
def collect(self, keys, where=None):
    conds = []
    if self._frame_limit:
        conds.append(self._frame_limit)
    conds.extend(gen_query_string(*item) for item in (where or {}).items())

    if not conds:
        return [self._table.col(k) for k in keys]

    query = ' & '.join(conds)
    if len(keys) == 1:
        key, = keys
        return [self._table.read_where(query, field=key)]
    rows = self._table.read_where(query)
    return [rows[k] for k in keys]
'''))
f('5-scene-query', (S, 'gen_query_string', '''
def gen_query_string(key, range_spec):
    lower, upper, invert = range_spec
    template = "(({key} < {lo:.17g}) | ({key} >= {hi:.17g}))" if invert \\
        else "(({key} >= {lo:.17g}) & ({key} < {hi:.17g}))"
    return template.format(key=key, lo=lower, hi=upper)
'''))
f('5-scene-bbox', (S, 'Scene.bounding_box', '''
def bounding_box(self):
    attrs = self._table._v_attrs
    if 'min_pos' in attrs._f_list():
        return attrs.min_pos, attrs.max_pos
    pos, = self.collect(['pos'])
    return np.min(pos, axis=0), np.max(pos, axis=0)
'''))
f('5-scene-tags', (S, 'Scene.trajectory_tags', '''
def trajectory_tags(self):
    tags = self._file.get_node('/bounds')
    cols = ('trajid', 'first', 'last')
    return np.stack([tags.col(name) for name in cols], axis=1)
'''))
f('5-dual-helper', (S, 'DualScene.iter_frames', '''
def iter_frames(self, frame_range=-1):
    self._restrict(frame_range)
    try:
        for pair in zip(self._tracers.iter_frames(),
                        self._particles.iter_frames()):
            yield self._dual_frame(*pair)
    finally:
        self._restrict(self._rng if frame_range != -1 else -1)

def _restrict(self, frame_range):
    if frame_range == -1:
        return
    for scene in (self._particles, self._tracers):
        scene.set_frame_range(frame_range)

@staticmethod
def _dual_frame(tracers, particles):
    frame = Frame()
    frame.tracers, frame.particles = tracers, particles
    return frame
'''), (S, 'DualScene.iter_segments', '''
def iter_segments(self, frame_range=-1):
    self._restrict(frame_range)
    try:
        for (part, next_part), (trac, next_trac) in zip(
            self._particles.iter_segments(), self._tracers.iter_segments()):
            yield (self._dual_frame(trac, part),
                self._dual_frame(next_trac, next_part))
    finally:
        if frame_range != -1:
            self._restrict(self._rng)
'''))
# ------------------------------------------------------------ trajectory
f('5-set-props', (T, 'ParticleSet.create_property', '''
def create_property(self, propname, init_val):
    attr = '_%s' % propname
    self._check_attr.append(propname)

    def getter(self, selector=None):
        value = getattr(self, attr)
        return value if selector is None else value[selector]

    def setter(self, new_val, selector=None):
        if selector is None:
            setattr(self, attr, new_val)
            return
        getattr(self, attr)[selector] = new_val

    setattr(self, propname, types.MethodType(getter, self))
    setattr(self, 'set_' + propname, types.MethodType(setter, self))
    if init_val is not None:
        setattr(self, attr, init_val)
'''))
f('5-set-dict', (T, 'ParticleSet.as_dict', '''
def as_dict(self):
    return {name: getattr(self, '_' + name) for name in self._check_attr}
'''), (T, 'ParticleSet.schema', '''
def schema(self):
    return {name: val.shape[1:] for name, val in self.as_dict().items()}
'''), (T, 'ParticleSet.ext_schema', '''
def ext_schema(self):
    schm = {}
    for name, prop in self.as_dict().items():
        schm[name] = (prop.dtype.type,
            () if prop.ndim <= 1 else prop.shape[-1])
    return schm
'''))
f('5-set-init', (T, 'ParticleSet.__init__', '''
def __init__(self, pos, velocity, **kwds):
    self._check_attr = [] # Attrs to look for when concatenating bundles
    self.create_property('pos', pos)
    self.create_property('velocity', velocity)
    for name, val in kwds.items():
        self.create_property(name, val)
'''))
f('5-traj-item', (T, 'Trajectory.__getitem__', '''
def __getitem__(self, selector):
    pos = self._pos[selector]
    trids = np.full(pos.shape[:-1] + (1,), float(self._id))
    time = np.expand_dims(self._time[selector], -1)
    return np.concatenate((pos, self._velocity[selector], time, trids), 
        axis=-1)
'''))
f('5-traj-smooth', (T, 'Trajectory.smoothed', '''
def smoothed(self, err_bound, order):
    num_pts = len(self.time())
    if num_pts <= order:
        return self
    spline, eval_prms = interp.splprep(list(self.pos().T), k=order,
        s=(num_pts*err_bound)**2)
    new_pos, new_vel, new_accel = [
        np.array(interp.splev(eval_prms, spline, der=d)).T for d in range(3)]
    return Trajectory(new_pos, new_vel, self.time(), self.trajid(),
        accel=new_accel)
'''))
f('5-in-frame', (T, 'trajectories_in_frame', '''
def trajectories_in_frame(trajects, frame_num,
    start_times=None, end_times=None, segs=False):
    if start_times is None or end_times is None:
        times = [tr.time() for tr in trajects]
        start_times = np.array([t[0] for t in times])
        end_times = np.array([t[-1] for t in times])

    last_needed = frame_num + 1 if segs else frame_num
    cands = np.nonzero(
        (start_times <= frame_num) & (end_times >= last_needed))[0]
    if len(cands) == 0:
        return cands

    # Filter candidates with overlapping particles.
    pos = np.array([trajects[c].pos()[int(frame_num - start_times[c])]
        for c in cands])
    return cands[mark_unique_rows(pos)]
'''))
f('5-uniq', (T, 'mark_unique_rows', '''
def mark_unique_rows(all_rows):
    pos = all_rows[:,:3]
    order = np.lexsort(pos.T)
    in_order = pos[order]
    is_new = np.any(in_order[1:] != in_order[:-1], axis=1)
    return np.sort(np.concatenate((order[:1], order[1:][is_new])))
'''))
f('5-snap', (T, 'take_snapshot', '''
def take_snapshot(trajects, frame, schema):
    num = len(trajects)
    if num == 0:
        data = {prop: np.empty((0,) + shape) for prop, shape in schema.items()}
        return ParticleSnapshot(time=frame, trajid=np.empty(0), **data)

    data = {}
    for prop, shape in schema.items():
        dtype = trajects[0].__dict__['_' + prop].dtype
        data[prop] = np.empty((num,) + shape, dtype=dtype)
        for trix, traj in enumerate(trajects):
            step = int(frame - traj.time()[0])
            data[prop][trix] = traj.__dict__[prop](step)
    data['trajid'] = np.array([tr.trajid() for tr in trajects], dtype=np.int64)
    data['time'] = frame
    return ParticleSnapshot(**data)
'''))
# ------------------------------------------------------------ sequence
f('5-seq-props', (Q, 'Sequence.range', '''
def range(self):
    return tuple(self._rng)
'''))
f('5-seq-next', (Q, 'Sequence.subrange', '''
def subrange(self):
    times = [tr.time() for tr in self.particle_trajectories()]
    earliest = np.array([t.min() for t in times], dtype=np.int64).min()
    latest = np.array([t.max() for t in times], dtype=np.int64).max()
    first, last = self._rng
    return max(earliest, first), min(latest, last)
'''))
f('5-seq-map', (Q, ('''        # Allocate result space:
        res = {}
        first_frames = {}
        
        # Initialize result buffer and first frame per trajectory.
        for tr in trajects:
            trid = tr.trajid()
            t = tr.time()[:-1]
            
            # This handles trajectories partly out of subrange bounds.
            in_range = (t >= subrange[0]) & (t < subrange[1])
            len_in_range = in_range.sum()
            
            if len_in_range < 1:
                continue
            
            res[trid] = [None]*len_in_range
            first_frames[trid] = t[in_range][0]
''',), '''        # Allocate result space:
        res = {}
        first_frames = {}
        first, last = subrange
        
        # Initialize result buffer and first frame per trajectory.
        for tr in trajects:
            t = tr.time()[:-1]
            
            # This handles trajectories partly out of subrange bounds.
            in_range = (first <= t) & (t < last)
            if not in_range.any():
                continue
            
            trid = tr.trajid()
            first_frames[trid] = t[in_range][0]
            res[trid] = [None]*np.count_nonzero(in_range)
'''))
f('5-seq-map-args', (Q, ('''            if history:
                fargs = (self, frame, next_frame, res) + args
            else:
                fargs = (self, frame, next_frame) + args
            frm_res = func(*fargs)
            
            for k, v in frm_res.items():
                res[k][int(frame.particles.time() - first_frames[k])] = v
''',), '''            past = (res,) if history else ()
            now = frame.particles.time()
            for trid, val in func(self, frame, next_frame, *past, *args).items():
                step = int(now - first_frames[trid])
                res[trid][step] = val
'''))
# ------------------------------------------------------------ interpolation
f('5-int-lazy', (I, 'GeneralInterpolant.current_dists', '''
def current_dists(self):
    self._populate()
    return self.__dists

def _populate(self):
    """Make sure the neighbours cache is valid."""
    if self.__active_neighbs is not None:
        return
    self._forego_laziness()
'''), (I, 'GeneralInterpolant.current_active_neighbs', '''
def current_active_neighbs(self):
    self._populate()
    return self.__active_neighbs
'''))
f('5-int-matched', (I, 'GeneralInterpolant._ensure_matched_data', '''
def _ensure_matched_data(self):
    if self.__matched_data is not None:
        return self.__matched_data
    has, neighbs = self.__has_data, self.__active_neighbs
    matched = np.zeros(neighbs.shape + self.__data.shape[1:2])
    matched[has] = self.__data[neighbs[has]]
    self.__matched_data = matched
    return matched
'''))
f('5-int-ndists', (I, 'GeneralInterpolant.neighb_dists', '''
def neighb_dists(self, tracer_pos, interp_points, companionship=None):
    dists, use_parts = select_neighbs(tracer_pos, interp_points, None,
        self._neighbs, companionship)
    per_point = min(len(tracer_pos), self._neighbs)
    ndists = np.zeros((len(interp_points), per_point))
    for pt, used in enumerate(use_parts):
        ndists[pt,:used.sum()] = dists[pt][used]
    return ndists
'''))
f('5-int-jac', (I, ('''        ret[:,:,0] = self(self.__tracers,
            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp)
        ret[:,:,1] = self(self.__tracers, 
            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp)
        ret[:,:,2] = self(self.__tracers, 
            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
        ret = (ret - local_interp[:,:,None]) / eps
        return ret
''',), '''        def moved(*step):
            return self(self.__tracers, self.__interp_pts + np.array(step),
                self.__data, self.__comp)
        
        ret[:,:,0] = moved(eps, 0, 0)
        ret[:,:,1] = moved(0, eps, 0)
        ret[:,:,2] = moved(0, 0, eps)
        ret -= local_interp[:,:,None]
        return ret/eps
'''))
f('5-int-cfg', (I, 'GeneralInterpolant.save_config', '''
def save_config(self, cfg):
    sect = "Interpolant"
    if not cfg.has_section(sect):
        cfg.add_section(sect)
    cfg.set(sect, 'method', self._method)
    # Whatever is None is the default on reading, and can't be written.
    opts = {'radius': self.radius(), 'num_neighbs': self.num_neighbs(), 
        'param': self._par}
    for key, val in opts.items():
        cfg.remove_option(sect, key)
        if val is not None:
            cfg.set(sect, key, str(val).replace('%', '%%'))
'''))
f('5-int-read', (I, 'read_interpolant', '''
def read_interpolant(conf_fname):
    parser = ConfigParser()
    parser.read(conf_fname)
    sect = "Interpolant"
    method = parser.get(sect, 'method')
    get_param = parser.get if method == 'corrfun' else parser.getfloat
    num_neighbs = parser.getint(sect, 'num_neighbs') \\
        if parser.has_option(sect, 'num_neighbs') else None
    radius = parser.getfloat(sect, 'radius') \\
        if parser.has_option(sect, 'radius') else None
    param = get_param(sect, 'param') \\
        if parser.has_option(sect, 'param') else None
    return interpolant(method, num_neighbs, radius, param)
'''))
# ------------------------------------------------------------ analysis
f('5-an-collect', (AN, ('''            p_trids = p_arr['trajid']
            a_trids = a_arr['trajid']
            trajids = set(p_trids) & set(a_trids)
            
            # select only those from the two frames:
            in_p = np.array([True if tr in trajids else False \\
                for tr in p_trids])
            in_a = np.array([True if tr in trajids else False \\
                for tr in a_trids])
            
            if len(in_p) > 0:
                p_arr = p_arr[in_p]
            if len(a_arr) > 0:
                a_arr = a_arr[in_a]
            
            # For each dual frame, add the columns of specified keys to the list
            # of that key's results
            for k in keys:
                if k in pkeys:
                    res[k].append(p_arr[k])
                else:
                    res[k].append(a_arr[k])
''',), '''            in_p = np.isin(p_arr['trajid'], a_arr['trajid'])
            in_a = np.isin(a_arr['trajid'], p_arr['trajid'])
            p_arr, a_arr = p_arr[in_p], a_arr[in_a]
            
            # For each dual frame, add the columns of specified keys to the list
            # of that key's results
            for k in keys:
                source = p_arr if k in pkeys else a_arr
                res[k].append(source[k])
'''))
f('5-an-where', (AN, ('''            pc_add = []
            an_cond_add = []
            
            for key, rng in where.items():
                cond_string = gen_query_string(key, rng)                
                if key in pkeys:
                    pc_add.append(cond_string)
                else:
                    an_cond_add.append(cond_string)
            
            if len(pc_add) != 0:
                part_cond = ' & '.join(pc_add)
            if len(an_cond_add) != 0:
                an_cond = ' & '.join(an_cond_add)
''',), '''            pc_add = [gen_query_string(key, rng) \\
                for key, rng in where.items() if key in pkeys]
            an_cond_add = [gen_query_string(key, rng) \\
                for key, rng in where.items() if key not in pkeys]
            part_cond = ' & '.join(pc_add) or None
            an_cond = ' & '.join(an_cond_add) or None
'''))
f('5-an-traj', (AN, 'AnalysedScene.trajectory_by_id', '''
def trajectory_by_id(self, trid):
    traj = self._scene.get_particles().trajectory_by_id(trid)
    arr = self._table.read_where('(trajid == trid)')

    # Leave only points present in both.
    analysed = np.isin(traj.time(), arr['time'])
    arr = arr[np.isin(arr['time'], traj.time())]

    kwds = {}
    for key, val in traj.as_dict().items():
        kwds[key] = val[analysed]
    kwds.update((field, arr[field]) for field in arr.dtype.names
        if field not in ('trajid', 'time'))
    return Trajectory(trajid=trid, **kwds)
'''))
f('5-an-comp', (A, 'companion_indices', '''
def companion_indices(trids, companions):
    ret = np.full_like(companions, -1)
    for trix, trid in enumerate(trids):
        ret[companions == trid] = trix
    return ret
'''))
# ------------------------------------------------------------ io
f('5-mat', (IO, ('''        # also convert data from mm to m.
        pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
        vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
        accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
        t = traj['t'].ravel()
''',), '''        # also convert data from mm to m.
        pos, vel, accel = [
            np.hstack([traj[comp] for comp in comps])/1000. for comps in (
                ('xf', 'yf', 'zf'), ('uf', 'vf', 'wf'), ('axf', 'ayf', 'azf'))]
        t = traj['t'].ravel()
'''))
f('5-acc', (IO, ('''        traj_starts = np.nonzero(table[:,-1] == 0)[0]
        traj_ends = np.r_[traj_starts[1:], table.shape[0]]
        
        for s, e in zip(traj_starts, traj_ends):
            trajects.append(Trajectory(
                table[s:e,0:3], table[s:e,3:6], table[s:e,-1] + frame,
                len(trajects), accel= table[s:e,6:9]))
''',), '''        bounds = np.append(np.nonzero(table[:,-1] == 0)[0], len(table))
        
        for s, e in zip(bounds[:-1], bounds[1:]):
            part = table[s:e]
            traj = Trajectory(pos=part[:,:3], velocity=part[:,3:6],
                time=part[:,-1] + frame, trajid=len(trajects),
                accel=part[:,6:9])
            trajects.append(traj)
'''))
f('5-acc-glob', (IO, ('''    frame_files = []
    for fname in os.listdir(dirname or os.curdir):
        match = is_data_file.match(fname)
        if match is None: continue
        frame = int(match.group(1))
        
        if first is not None and frame < first: continue
        if last is not None and frame > last: continue
        frame_files.append((frame, fname))
    
    for frame, fname in sorted(frame_files):
''',), '''    found = [(is_data_file.match(name), name) \\
        for name in os.listdir(dirname or os.curdir)]
    frame_files = [(int(match.group(1)), name) for match, name in found \\
        if match is not None]
    
    for frame, fname in sorted(frame_files):
        if first is not None and frame < first: continue
        if last is not None and frame > last: continue
'''))
f('5-generic', (IO, ('''        if path_seg is True:
            t = np.nonzero((traj.time()[:-1] == frame) & \\
                (traj.time()[1:] == frame + 1))[0]
            if len(t) == 0: continue
            
            t = t[0]
            sel = traj[t : t + 2].reshape(2, 1, -1)
            
        else:
            t = np.nonzero(traj.time() == frame)[0]
            if len(t) == 0: continue
            sel = traj[t[0]]
        
        selected.append(sel)
''',), '''        time = traj.time()
        if path_seg is True:
            here = np.nonzero(
                (time[:-1] == frame) & (time[1:] == frame + 1))[0]
        else:
            here = np.nonzero(time == frame)[0]
        if len(here) == 0: continue
        
        t = here[0]
        selected.append(traj[t : t + 2].reshape(2, 1, -1) \\
            if path_seg is True else traj[t])
'''))
f('5-infer', (IO, 'iter_trajectories_ptvis', None)) if False else None
f('5-pairs', (P, ('x',), 'x')) if False else None
# ------------------------------------------------------------ smoothing
f('5-sg-split', (SM, '+', '''
def _filter_rows(window_size, order):
    """The rows of the least-squares filter, for each derivative."""
    half = (window_size - 1) // 2
    steps = np.arange(-half, half + 1)
    return np.linalg.pinv(np.vander(steps, order + 1, increasing=True))
'''), (SM, ('''for k in range(-half_window, half_window+1)''',),
       '''for k in range(-half_window, 1 + half_window)'''))
f('5-pdf', (G, 'pdf_bins', '''
def pdf_bins(data, num_bins, log_bins=False):
    edges = num_bins
    if log_bins:
        data = data[data > 0]
        edges = np.logspace(np.log10(data.min()), np.log10(data.max()), 
            num=num_bins + 1)
    return np.histogram(data, edges, density=True)
'''))
