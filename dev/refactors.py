"""
Edits that keep the behaviour, for checking that the checks stay quiet:
(name, [(file, old, new), ...]).  Not read by any check.
"""
REF = []


def r(name, *edits):
    REF.append((name, edits))


S = 'scene.py'
# ---------------------------------------------------------------- scene.py
r('pairwise-loop', (S, '''        for arr, next_arr in pairwise(self._iter_frame_arrays()):
            t, arr = arr
            tn, next_arr = next_arr
''', '''        for (t, arr), (tn, next_arr) in pairwise(self._iter_frame_arrays()):
'''))
r('isin', (S, '''            in_arr = np.array([True if tr in trajids else False \\
                for tr in arr_trids])
            in_next_arr = np.array([True if tr in trajids else False \\
                for tr in next_arr_trids])
''', '''            in_arr = np.array([tr in trajids for tr in arr_trids])
            in_next_arr = np.array([tr in trajids for tr in next_arr_trids])
'''))
r('isin2', (S, '''            in_arr = np.array([True if tr in trajids else False \\
                for tr in arr_trids])
            in_next_arr = np.array([True if tr in trajids else False \\
                for tr in next_arr_trids])
''', '''            in_arr = np.isin(arr_trids, next_arr_trids)
            in_next_arr = np.isin(next_arr_trids, arr_trids)
'''))
r('isin3', (S, '''            trajids = set(arr_trids) & set(next_arr_trids)
''', '''            trajids = set(arr_trids).intersection(next_arr_trids)
'''), (S, '''            if len(in_arr) > 0:
                arr = arr[in_arr]
            if len(in_next_arr) > 0:
                next_arr = next_arr[in_next_arr]
''', '''            if in_arr.size:
                arr = arr[in_arr]
            if in_next_arr.size:
                next_arr = next_arr[in_next_arr]
'''))
r('snapshot-helper', (S, '''            kwds = dict((field, arr[field]) for field in arr.dtype.fields \\
                if field != 'time')
            kwds['time'] = t
            frame = ParticleSnapshot(**kwds)
            
            kwds = dict((field, next_arr[field]) for field in arr.dtype.fields \\
                if field != 'time')
            kwds['time'] = tn
            next_frame = ParticleSnapshot(**kwds)
            
            yield frame, next_frame
''', '''            yield self._snapshot(arr, t), self._snapshot(next_arr, tn)
    
    def _snapshot(self, arr, t):
        """Private. Make a snapshot of the rows of a frame."""
        kwds = {}
        for field in arr.dtype.fields:
            if field == 'time':
                continue
            kwds[field] = arr[field]
        return ParticleSnapshot(time=t, **kwds)
'''), (S, '''        for t, arr in self._iter_frame_arrays():
            kwds = dict((field, arr[field]) for field in arr.dtype.fields \\
                if field != 'time')
            kwds['time'] = t
            yield ParticleSnapshot(**kwds)
''', '''        for t, arr in self._iter_frame_arrays():
            yield self._snapshot(arr, t)
'''))
r('names-snapshot', (S, '''        query_string = '(time == t)'
        arr = self._table.read_where(query_string)
        
        kwds = dict((field, arr[field]) for field in arr.dtype.fields \\
            if field != 'time')
        kwds['time'] = t
        return ParticleSnapshot(**kwds)
''', '''        rows = self._table.read_where('(time == t)')
        data = {name: rows[name] for name in rows.dtype.names if name != 'time'}
        return ParticleSnapshot(time=t, **data)
'''))
r('traj-helper', (S, '''        query_string = '(trajid == trid)'
        if self._frame_limit != '':
            query_string += ' & ' + self._frame_limit
        
        for trid in self._trids:
            arr = self._table.read_where(query_string)
            kwds = dict((field, arr[field]) for field in arr.dtype.fields \\
                if field != 'trajid')
            kwds['trajid'] = trid
            yield Trajectory(**kwds)
''', '''        for trid in self._trids:
            yield self.trajectory_by_id(trid)
'''))
r('traj-cond-helper', (S, '''        query_string = '(trajid == trid)'
        if self._frame_limit != '':
            query_string += ' & ' + self._frame_limit
        
        arr = self._table.read_where(query_string)
''', '''        conds = ['(trajid == trid)']
        if self._frame_limit:
            conds.append(self._frame_limit)
        
        arr = self._table.read_where(' & '.join(conds))
'''))
r('trid-literal', (S, '''        query_string = '(trajid == trid)'
        if self._frame_limit != '':
            query_string += ' & ' + self._frame_limit
        
        arr = self._table.read_where(query_string)
''', '''        query_string = '(trajid == trid)'
        if self._frame_limit != '':
            query_string = '%s & %s' % (query_string, self._frame_limit)
        
        arr = self._table.read_where(query_string, condvars={'trid': trid})
'''))
r('range-once', (S, '''        first, last = frame_range
        rng_exprs = []
        if first is None:
            t = self._table.col('time')
            self._first = int(t.min())
        else:
            self._first = first
            rng_exprs.append("(time >= %d)" % first)
        
        if last is None:
            t = self._table.col('time')
            self._last = int(t.max()) + 1
        else:
            self._last = last
            rng_exprs.append("(time < %d)" % last)
        
        self._frame_limit = ' & '.join(rng_exprs)
''', '''        first, last = frame_range
        rng_exprs = []
        if first is not None:
            self._first = first
            rng_exprs.append("(time >= %d)" % first)
        else:
            self._first = int(self._table.col('time').min())
        
        if last is not None:
            rng_exprs.append("(time < %d)" % last)
            self._last = last
        else:
            self._last = 1 + int(np.max(self._table.col('time')))
        
        self._frame_limit = ' & '.join(rng_exprs)
'''))
r('range-none-tuple', (S, '''        self._frame_limit = ""
        
        if frame_range is None:
            t = self._table.col('time')
            self._first = int(t.min())
            self._last = int(t.max()) + 1
            return
        
        first, last = frame_range
''', '''        if frame_range is None:
            frame_range = (None, None)
        
        first, last = frame_range
'''))
r('range-methods', (S, '''        first, last = frame_range
        rng_exprs = []
        if first is None:
            t = self._table.col('time')
            self._first = int(t.min())
        else:
            self._first = first
            rng_exprs.append("(time >= %d)" % first)
        
        if last is None:
            t = self._table.col('time')
            self._last = int(t.max()) + 1
        else:
            self._last = last
            rng_exprs.append("(time < %d)" % last)
        
        self._frame_limit = ' & '.join(rng_exprs)
''', '''        first, last = frame_range
        self._first = self._first_time() if first is None else first
        self._last = self._last_time() + 1 if last is None else last
        
        limits = []
        if first is not None:
            limits.append(f"(time >= {first:d})")
        if last is not None:
            limits.append(f"(time < {last:d})")
        self._frame_limit = ' & '.join(limits)
    
    def _first_time(self):
        return int(self._table.col('time').min())
    
    def _last_time(self):
        return int(self._table.col('time').max())
'''))
r('keys-comp', (S, '''        for name in self._table.colnames:
            if name in filt:
                continue
            self._keys.append(name)
            shape = desc[name].shape
            self._shapes.append(1 if len(shape) == 0 else shape[0])
''', '''        self._keys = [n for n in self._table.colnames if n not in filt]
        for name in self._keys:
            shape = desc[name].shape
            self._shapes.append(shape[0] if shape else 1)
'''))
r('keys-skip', (S, '''            if name in filt:
                continue
            self._keys.append(name)
            shape = desc[name].shape
            self._shapes.append(1 if len(shape) == 0 else shape[0])
''', '''            if name not in filt:
                shape = desc[name].shape
                if len(shape) == 0:
                    width = 1
                else:
                    width = shape[0]
                self._shapes.append(width)
                self._keys.append(name)
'''))
r('collect-comp', (S, '''        ret = []
        raw = self._table.read_where(cond_string)
        for k in keys:
            ret.append(raw[k])
        
        return ret
''', '''        raw = self._table.read_where(cond_string)
        return [raw[k] for k in keys]
'''))
r('collect-nosingle', (S, '''        # Single key is natively handled in PyTables.
        if len(keys) == 1:
            return [self._table.read_where(cond_string, field=keys[0])]
        
''', ''))
r('collect-conds', (S, '''        conds = [] if self._frame_limit == '' else [self._frame_limit]
        if where is not None:
            for key, rng in where.items():
                conds.append(gen_query_string(key, rng))
        cond_string = ' & '.join(conds)
''', '''        conds = []
        if self._frame_limit != '':
            conds.append(self._frame_limit)
        if where:
            conds += [gen_query_string(key, where[key]) for key in where]
        cond_string = ' & '.join(conds)
'''))
r('collect-conds-2', (S, '''        if where is not None:
            for key, rng in where.items():
                conds.append(gen_query_string(key, rng))
        cond_string = ' & '.join(conds)
''', '''        for key, rng in (where or {}).items():
            conds.append(gen_query_string(key, rng))
        cond_string = ' & '.join(conds)
'''))
r('query-branches', (S, '''    cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
''', '''    if invert:
        cop1, cop2, lop = '<', '>=', '|'
    else:
        cop1, cop2, lop = '>=', '<', '&'
'''))
r('query-format', (S, '''    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \\
        (key, cop1, smin, lop, key, cop2, smax)
    
    return cond_string
''', '''    low = "(%s %s %.17g)" % (key, cop1, smin)
    high = "(%s %s %.17g)" % (key, cop2, smax)
    return "(" + low + " " + lop + " " + high + ")"
'''))
r('bbox-early', (S, '''        if 'min_pos' in self._table._v_attrs._f_list():
            min_pos = self._table._v_attrs.min_pos
            max_pos = self._table._v_attrs.max_pos
        else:
            poses = self.collect(['pos'])[0]
            min_pos, max_pos = poses.min(axis=0), poses.max(axis=0)
        return min_pos, max_pos
''', '''        attrs = self._table._v_attrs
        if 'min_pos' in attrs._f_list():
            return attrs.min_pos, attrs.max_pos
        
        poses, = self.collect(['pos'])
        return np.min(poses, axis=0), np.max(poses, axis=0)
'''))
r('tags', (S, '''        return np.hstack([tags.col(name)[:,None] for name in ['trajid', 'first', 'last']])
''', '''        cols = ('trajid', 'first', 'last')
        return np.column_stack([tags.col(name) for name in cols])
'''))
r('dual-frames', (S, '''            for particles, tracers in zip(
                self._particles.iter_frames(), self._tracers.iter_frames()):
                frame = Frame()
                frame.tracers = tracers
                frame.particles = particles
                yield frame
''', '''            pairs = zip(self._tracers.iter_frames(), self._particles.iter_frames())
            for tracers, particles in pairs:
                frame = Frame()
                frame.particles, frame.tracers = particles, tracers
                yield frame
'''))
r('dual-segs', (S, '''            for part_frames, tracer_frames in zip(
                self._particles.iter_segments(), 
                self._tracers.iter_segments()):
                frame = Frame()
                frame.tracers = tracer_frames[0]
                frame.particles = part_frames[0]
                
                next_frame = Frame()
                next_frame.tracers = tracer_frames[1]
                next_frame.particles = part_frames[1]
                
                yield frame, next_frame
''', '''            for (part, next_part), (tracers, next_tracers) in zip(
                self._particles.iter_segments(), 
                self._tracers.iter_segments()):
                yield (self._make_frame(tracers, part), 
                    self._make_frame(next_tracers, next_part))
'''), (S, '''    def get_range(self):
        """
        Returns the frame renge''', '''    @staticmethod
    def _make_frame(tracers, particles):
        frame = Frame()
        frame.tracers = tracers
        frame.particles = particles
        return frame
    
    def get_range(self):
        """
        Returns the frame renge'''))
r('dual-setter', (S, '''        if frame_range != -1:
            self._particles.set_frame_range(frame_range)
            self._tracers.set_frame_range(frame_range)
    
        try:
            for particles, tracers in zip(''', '''        changed = frame_range != -1
        if changed:
            self._set_ranges(frame_range)
    
        try:
            for particles, tracers in zip('''), (S, '''    def get_range(self):
        """
        Returns the frame renge''', '''    def _set_ranges(self, rng):
        for scene in (self._particles, self._tracers):
            scene.set_frame_range(rng)
    
    def get_range(self):
        """
        Returns the frame renge'''))
r('read-dual', (S, '''    frange = (parser.getint("Scene", "first frame"),
        parser.getint("Scene", "last frame") + 1)
    
    return DualScene(''', '''    first = parser.getint("Scene", "first frame")
    last = parser.getint("Scene", "last frame")
    frange = (first, last + 1)
    
    return DualScene('''))
r('read-dual-sec', (S, '''    frate = parser.getfloat("Scene", "frame rate")
    tracer_file = parser.get("Scene", "tracers file")
    part_file = parser.get("Scene", "particles file")
    frange = (parser.getint("Scene", "first frame"),
        parser.getint("Scene", "last frame") + 1)
''', '''    scene = parser["Scene"]
    frate = scene.getfloat("frame rate")
    tracer_file = scene["tracers file"]
    part_file = scene.get("particles file")
    frange = (int(scene["first frame"]), int(scene["last frame"]) + 1)
'''))
r('frames-arrays', (S, '''        query_string = '(time == t)'
        if cond is not None:
            query_string = '&'.join([query_string, cond])
            
        for t in range(self._first, self._last):
            yield t, self._table.read_where(query_string)
    
    def frame_by_time''', '''        query_string = '(time == t)' if cond is None else '(time == t)&' + cond
        t = self._first
        while t < self._last:
            yield t, self._table.read_where(query_string)
            t += 1
    
    def frame_by_time'''))
# ----------------------------------------------------------- trajectory.py
T = 'trajectory.py'
r('base-vals', (T, '''        base_vals = {
            'pos': pos,
            'velocity': velocity,
        }
        base_vals.update(kwds)
        
        self._check_attr = [] # Attrs to look for when concatenating bundles
        for n, v in base_vals.items():
            self.create_property(n, v)
''', '''        self._check_attr = [] # Attrs to look for when concatenating bundles
        self.create_property('pos', pos)
        self.create_property('velocity', velocity)
        for name in kwds:
            self.create_property(name, kwds[name])
'''))
r('getter', (T, '''            if selector is None:
                return self.__dict__[attr]
            else:
                return self.__dict__[attr][selector]
''', '''            value = getattr(self, attr)
            if selector is not None:
                value = value[selector]
            return value
'''))
r('setter', (T, '''            if selector is None:
                self.__dict__[attr] = new_val
            else:
                self.__dict__[attr][selector] = new_val
''', '''            if selector is None:
                setattr(self, attr, new_val)
                return
            getattr(self, attr)[selector] = new_val
'''))
r('init-val', (T, '''        if init_val is not None:
            self.__dict__['set_' + propname](init_val)
''', '''        if init_val is None:
            return
        setter(self, init_val)
'''))
r('schema-comp', (T, '''        return dict((propname, self.__dict__['_' + propname].shape[1:]) \\
            for propname in self._check_attr)
''', '''        schm = {}
        for propname in self._check_attr:
            schm[propname] = getattr(self, '_' + propname).shape[1:]
        return schm
'''))
r('ext-schema', (T, '''            prop = self.__dict__['_' + propname]
            shape = prop.shape[-1] if prop.ndim > 1 else ()
            schm[propname] = (prop.dtype.type, shape)
''', '''            prop = self.__dict__['_' + propname]
            if prop.ndim <= 1:
                shape = ()
            else:
                shape = prop.shape[-1]
            schm[propname] = prop.dtype.type, shape
'''))
r('as-dict', (T, '''        return dict((propname, self.__dict__['_' + propname]) \\
            for propname in self._check_attr)
''', '''        return {name: self.__dict__['_' + name] for name in self._check_attr}
'''))
r('len', (T, '''        return self._pos.shape[0]
''', '''        return len(self._pos)
'''))
r('getitem', (T, '''        return np.hstack((self._pos[selector], self._velocity[selector],
            self._time[selector][...,None], 
            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))
''', '''        pos = self._pos[selector]
        ids = np.ones(pos.shape[:-1] + (1,))*self._id
        time = self._time[selector][...,None]
        return np.hstack((pos, self._velocity[selector], time, ids))
'''))
r('getitem-concat', (T, '''        return np.hstack((self._pos[selector], self._velocity[selector],
            self._time[selector][...,None], 
            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))
''', '''        pos = self._pos[selector]
        ids = np.full(pos.shape[:-1] + (1,), self._id)
        return np.hstack([pos, self._velocity[selector], 
            self._time[selector][..., np.newaxis], ids])
'''))
r('super', (T, '''        self._id = trajid
        kwds['time'] = time
        ParticleSet.__init__(self, pos, velocity, **kwds)
''', '''        super(Trajectory, self).__init__(pos, velocity, time=time, **kwds)
        self._id = trajid
'''))
r('smoothed', (T, '''        if len(self.time()) < order + 1: return self
        s = (len(self.time()) * err_bound)**2
''', '''        num_points = len(self)
        if num_points <= order:
            return self
        s = (num_points * err_bound)**2
'''))
r('unique-rows', (T, '''    srt = np.lexsort(all_rows[:,:3].T)
    diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
    uniq = np.r_[srt[:1], srt[1:][diff]]
    uniq.sort()
        
    return uniq
''', '''    srt = np.lexsort((all_rows[:,0], all_rows[:,1], all_rows[:,2]))
    rows = all_rows[srt,:3]
    diff = np.any(rows[1:] != rows[:-1], axis=1)
    return np.sort(np.concatenate((srt[:1], srt[1:][diff])))
'''))
r('unique-rows-2', (T, '''    diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
    uniq = np.r_[srt[:1], srt[1:][diff]]
    uniq.sort()
        
    return uniq
''', '''    diff = (np.diff(all_rows[srt,:3], axis=0) != 0).any(axis=1)
    keep = np.ones(len(srt), dtype=bool)
    keep[1:] = diff
    return np.sort(srt[keep])
'''))
r('in-frame', (T, '''    end_frm = (frame_num + 1) if segs else frame_num
    cands = (frame_num >= start_times) & (end_frm <= end_times)
    cand_nums = np.nonzero(cands)[0]
''', '''    end_frm = frame_num
    if segs:
        end_frm += 1
    started = start_times <= frame_num
    cands = started & (end_times >= end_frm)
    cand_nums = np.flatnonzero(cands)
'''))
r('in-frame-2', (T, '''    if len(cand_nums) > 0:
        # Filter candidates with overlapping particles.
        frm_ixs''', '''    if len(cand_nums) == 0:
        return cand_nums
    
    if True:
        # Filter candidates with overlapping particles.
        frm_ixs'''))
r('in-frame-3', (T, '''        update_cands = np.zeros(pos.shape[0], dtype=np.bool)
        update_cands[mark_unique_rows(pos)] = True
        cands[cands] = update_cands
        cand_nums = np.nonzero(cands)[0]
    
    return cand_nums
''', '''        cand_nums = cand_nums[mark_unique_rows(pos)]
    
    return cand_nums
'''))
r('in-frame-4', (T, '''        start_end = [(tr.time()[0], tr.time()[-1]) for tr in trajects]
        start_times, end_times = map(np.array, zip(*start_end))
''', '''        start_times = np.array([tr.time()[0] for tr in trajects])
        end_times = np.array([tr.time()[-1] for tr in trajects])
'''))
r('in-frame-5', (T, '''        pos = np.array([trajects[trix].pos()[frm] \\
            for trix, frm in zip(cand_nums, frm_ixs)])
''', '''        pos = []
        for trix, frm in zip(cand_nums, frm_ixs):
            pos.append(trajects[trix].pos(frm))
        pos = np.array(pos)
'''))
r('snapshot', (T, '''    for trix, traj in enumerate(trajects):
        first_frame = traj.time()[0]
        for prop in copy_keys:
            kwds[prop][trix] = traj.__dict__[prop](int(frame - first_frame))

        kwds['trajid'][trix] = traj.trajid()
''', '''    for trix, traj in enumerate(trajects):
        row = int(frame - traj.time()[0])
        kwds['trajid'][trix] = traj.trajid()
        for prop in copy_keys:
            kwds[prop][trix] = getattr(traj, prop)(row)
'''))
r('snapshot-2', (T, '''    kwds = dict((k, np.empty(
        (len(trajects),) + v, 
        dtype=trajects[0].__dict__['_' + k].dtype)) \\
        for k, v in schema.items())
''', '''    num = len(trajects)
    kwds = {}
    for k, v in schema.items():
        dtype = trajects[0].__dict__['_' + k].dtype
        kwds[k] = np.empty((num,) + v, dtype=dtype)
'''))
r('snapshot-3', (T, '''    kwds['time'] = frame
    return ParticleSnapshot(**kwds)''', '''    return ParticleSnapshot(time=frame, **kwds)'''))
# ------------------------------------------------------------- sequence.py
Q = 'sequence.py'
r('subrange', (Q, '''        trs = self.particle_trajectories()
        mins = np.empty(len(trs), dtype=np.int64)
        maxs = np.empty(len(trs), dtype=np.int64)
        
        for trn, tr in enumerate(trs):
            t = tr.time()
            mins[trn] = t.min()
            maxs[trn] = t.max()
        
        return max(mins.min(), self._rng[0]), min(maxs.max(), self._rng[1])
''', '''        trs = self.particle_trajectories()
        first = min(tr.time().min() for tr in trs)
        last = max(tr.time().max() for tr in trs)
        
        return max(first, self._rng[0]), min(last, self._rng[1])
'''))
r('subrange-2', (Q, '''        mins = np.empty(len(trs), dtype=np.int64)
        maxs = np.empty(len(trs), dtype=np.int64)
        
        for trn, tr in enumerate(trs):
            t = tr.time()
            mins[trn] = t.min()
            maxs[trn] = t.max()
        
        return max(mins.min(), self._rng[0]), min(maxs.max(), self._rng[1])
''', '''        mins = np.array([tr.time().min() for tr in trs])
        maxs = np.array([tr.time().max() for tr in trs])
        start, end = self._rng
        return max(mins.min(), start), min(maxs.max(), end)
'''))
r('cache-flow', (Q, '''        if (self.__ptraj is not None):
            return self.__ptraj
        
        self.__ptraj = self._psel(trajectories(self._ptmpl, self._rng[0], 
            self._rng[1], self.frate, self._pfmt, self._minlen))
        
        # Also caches the starts and ends of trajectories, so that accessing
        # only the ones relevant to a specific frame is easier.
        start_end = [(tr.time()[0], tr.time()[-1]) for tr in self.__ptraj]
        self.__pstarts, self.__pends =  map(np.array, zip(*start_end))
        
        return self.__ptraj
''', '''        if self.__ptraj is None:
            first, last = self._rng
            raw = trajectories(self._ptmpl, first, last, self.frate, 
                self._pfmt, self._minlen)
            self.__ptraj = self._psel(raw)
            
            # Also caches the starts and ends of trajectories, so that accessing
            # only the ones relevant to a specific frame is easier.
            self.__pstarts = np.array([tr.time()[0] for tr in self.__ptraj])
            self.__pends = np.array([tr.time()[-1] for tr in self.__ptraj])
        
        return self.__ptraj
'''))
r('iter-helper', (Q, '''            tracer_ixs = trajectories_in_frame(self.__ttraj, frame_num, 
                self.__tstarts, self.__tends, segs=True)
            tracer_trjs = [self.__ttraj[t] for t in tracer_ixs]
''', '''            tracer_trjs = self._select(self.__ttraj, frame_num, 
                self.__tstarts, self.__tends)
'''), (Q, '''    def __iter__(self):''', '''    def _select(self, trajects, frame_num, starts, ends):
        ixs = trajectories_in_frame(trajects, frame_num, starts, ends, segs=True)
        return [trajects[ix] for ix in ixs]
    
    def __iter__(self):'''))
r('map-range', (Q, '''            in_range = (t >= subrange[0]) & (t < subrange[1])
            len_in_range = in_range.sum()
            
            if len_in_range < 1:
                continue
            
            res[trid] = [None]*len_in_range
            first_frames[trid] = t[in_range][0]
''', '''            t = t[(subrange[0] <= t) & (t < subrange[1])]
            if len(t) > 0:
                res[trid] = [None for _ in range(len(t))]
                first_frames[trid] = t[0]
'''))
r('map-args', (Q, '''            if history:
                fargs = (self, frame, next_frame, res) + args
            else:
                fargs = (self, frame, next_frame) + args
            frm_res = func(*fargs)
''', '''            fargs = (self, frame, next_frame)
            if history:
                fargs += (res,)
            frm_res = func(*(fargs + args))
'''))
r('map-dict', (Q, '''        for k in res.keys():
            res[k] = np.array(res[k])
        return res
''', '''        return dict((k, np.array(v)) for k, v in res.items())
'''))
r('save-cfg', (Q, '''        if not cfg.has_section("Particle"):
            cfg.add_section("Particle")
        cfg.set("Particle", "diameter", str(self.part.diam))
        cfg.set("Particle", "density", str(self.part.density))
''', '''        part = self.part
        if not cfg.has_section("Particle"):
            cfg.add_section("Particle")
        for key, val in (("density", part.density), ("diameter", part.diam)):
            cfg.set("Particle", key, str(val))
'''))
r('read-smooth', (Q, '''    if parser.has_option("Scene", "apply smoothing"):
        if smooth is None:
            smooth = parser.getboolean("Scene", "apply smoothing")
    else:
        if smooth is None:
            smooth = False
''', '''    if smooth is None:
        if parser.has_option("Scene", "apply smoothing"):
            smooth = parser.getboolean("Scene", "apply smoothing")
        else:
            smooth = False
'''))
r('read-smooth-2', (Q, '''    if parser.has_option("Scene", "apply smoothing"):
        if smooth is None:
            smooth = parser.getboolean("Scene", "apply smoothing")
    else:
        if smooth is None:
            smooth = False
''', '''    if smooth is None:
        smooth = parser.getboolean("Scene", "apply smoothing", fallback=False)
'''))
r('read-minlen', (Q, '''    if parser.has_option("Scene", "trajectory minimal length"):
        if traj_min_len is None:
            traj_min_len = parser.getint("Scene", "trajectory minimal length")
    else:
        if traj_min_len is None:
            traj_min_len = 0
''', '''    if traj_min_len is None:
        traj_min_len = 0
        if parser.has_option("Scene", "trajectory minimal length"):
            traj_min_len = parser.getint("Scene", "trajectory minimal length")
'''))
# -------------------------------------------------------- interpolation.py
I = 'interpolation.py'
r('sel-dists', (I, '''    dists = np.linalg.norm(tracer_pos[None, :, :]-interp_points[:, None, :],
                           axis=2)
''', '''    diff = interp_points[:, None, :] - tracer_pos[None, :, :]
    dists = np.sqrt((diff**2).sum(axis=2))
'''))
r('sel-mask', (I, '''        use_parts[
            np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs),
            dist_sort[:, :num_neighbs].flatten()] = True
''', '''        rows = np.arange(len(interp_points))
        use_parts[rows[:, None], dist_sort[:, :num_neighbs]] = True
'''))
r('sel-comp', (I, '''        cif = companionship >= 0.  # companion in frame
        dists[np.nonzero(cif)[0], companionship[cif]] = np.inf
''', '''        pts = np.flatnonzero(companionship >= 0)  # companion in frame
        dists[pts, companionship[pts]] = np.inf
'''))
r('sel-early', (I, '''    if radius is None:
        if num_neighbs is None:
            raise ValueError("Either radius or num_neighbs must be given.")
''', '''    if radius is None and num_neighbs is None:
        raise ValueError("Either radius or num_neighbs must be given.")
    
    if radius is None:
'''))
r('sel-swap', (I, '''    if radius is None:
        if num_neighbs is None:
            raise ValueError("Either radius or num_neighbs must be given.")
''', '''    if radius is not None:
        use_parts = dists < radius
    else:
        if num_neighbs is None:
            raise ValueError("Either radius or num_neighbs must be given.")
'''), (I, '''        use_parts[np.isinf(dists)] = False

    else:
        use_parts = dists < radius
''', '''        use_parts[np.isinf(dists)] = False
'''))
r('sel-isinf', (I, '''    dists[np.isinf(dists)] = 0.
''', '''    dists = np.where(np.isinf(dists), 0., dists)
'''))
r('corr-weights', (I, '''    weights[use_parts] = corrs_hist[
        np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]
''', '''    bins = np.digitize(dists[use_parts], corrs_bins) - 1
    weights[use_parts] = corrs_hist[bins]
'''))
r('corr-avg', (I, '''    vel_avg = (weights * data[None, ...]).sum(axis=1) / \\
        weights.sum(axis=1)
''', '''    total = np.sum(weights, axis=1)
    vel_avg = np.sum(data[None, ...] * weights, axis=1) / total
'''))
r('rbf-loop', (I, '''    for pix in range(dists.shape[0]):
        neighbs = np.nonzero(use_parts[pix])[0]
''', '''    for pix, used in enumerate(use_parts):
        neighbs = np.flatnonzero(used)
'''))
r('rbf-kernel', (I, '''    kernel = np.exp(-tracer_dists**2 * epsilon)
''', '''    def gauss(r):
        return np.exp(-epsilon * r**2)
    
    kernel = gauss(tracer_dists)
'''), (I, '''    rbf = np.exp(-dists**2 * epsilon)
''', '''    rbf = gauss(dists)
'''))
r('rbf-sum', (I, '''    vel_interp = np.sum(rbf[..., None] * coeffs, axis=1)
''', '''    vel_interp = (coeffs * rbf[:, :, None]).sum(axis=1)
'''))
r('factory', (I, '''    if method == 'inv':
        return InverseDistanceWeighter(num_neighbs, radius, param)
    else:
        return GeneralInterpolant(method, num_neighbs, radius, param)
''', '''    if method != 'inv':
        return GeneralInterpolant(method, num_neighbs, radius, param)
    return InverseDistanceWeighter(num_neighbs=num_neighbs, radius=radius, 
        param=param)
'''))
r('upb', (I, '''        if self._radius is None:
            self._upb = np.inf
        else:
            self._upb = self._radius
''', '''        self._upb = np.inf if radius is None else radius
'''))
r('defaults', (I, '''        elif method == 'rbf':
            if num_neighbs is None:
                num_neighbs = 7
            if param is None:
                param = 1e5
''', '''        elif method == 'rbf':
            num_neighbs = 7 if num_neighbs is None else num_neighbs
            param = 1e5 if param is None else param
'''))
r('data-1d', (I, '''        if data.ndim < 2:
            if data.shape[0] == self.__tracers.shape[0]:
                data = data[:, None]
            else:
                data = data[None, :]
''', '''        if data.ndim < 2:
            per_tracer = len(data) == len(self.__tracers)
            data = data[:, None] if per_tracer else data[None, :]
'''))
r('keep-inv', (I, '''        keep = ~which
''', '''        keep = np.logical_not(which)
'''))
r('sel-nb-where', (I, '''        dists[~keep] = np.inf
        active_neighbs[~keep] = self.__tracers.shape[0]
''', '''        missing = len(self.__tracers)
        dists = np.where(keep, dists, np.inf)
        active_neighbs = np.where(keep, active_neighbs, missing)
'''))
r('ensure', (I, '''        if self.__active_neighbs is None:
            self._forego_laziness()
                
        return self.__dists
''', '''        self._ensure_neighbs()
        return self.__dists
    
    def _ensure_neighbs(self):
        """Populate the neighbours cache if it is not."""
        if self.__active_neighbs is None:
            self._forego_laziness()
'''), (I, '''        # Check that the cache is populated:
        if self.__active_neighbs is None:
            self._forego_laziness()
''', '''        # Check that the cache is populated:
        self._ensure_neighbs()
'''))
r('no-tracers', (I, '''            ret_shape = self.__data.shape[-1] if self.__data.ndim > 1 else 1
            return np.zeros((self.__interp_pts.shape[0], ret_shape))
''', '''            if self.__data.ndim > 1:
                ret_shape = self.__data.shape[-1]
            else:
                ret_shape = 1
            num_points = self.__interp_pts.shape[0]
            return np.zeros((num_points, ret_shape))
'''))
r('jac-loop', (I, '''        ret[:,:,0] = self(self.__tracers,
            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp)
        ret[:,:,1] = self(self.__tracers, 
            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp)
        ret[:,:,2] = self(self.__tracers, 
            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
        ret = (ret - local_interp[:,:,None]) / eps
        return ret
''', '''        for direct in range(3):
            step = np.zeros(3)
            step[direct] = eps
            ret[:,:,direct] = self(self.__tracers, self.__interp_pts + step, 
                self.__data, self.__comp)
        return (ret - local_interp[:,:,None]) / eps
'''))
r('ndists', (I, '''        for pt in range(interp_points.shape[0]):
            # allow assignment of less than the desired number of neighbours.
            ndists[pt, :use_parts[pt].sum()] = dists[pt, use_parts[pt]]
''', '''        for pt, used in enumerate(use_parts):
            # allow assignment of less than the desired number of neighbours.
            ndists[pt, :np.count_nonzero(used)] = dists[pt][used]
'''))
r('idw-weights', (I, '''        weights = dists**-self._par
        weights[use_parts == unused_marker] = 0.
        return weights
''', '''        used = use_parts != unused_marker
        return np.where(used, dists**(-self._par), 0.)
'''))
r('idw-apply', (I, '''        return (weights[...,None] * data).sum(axis=1) \\
            / weights.sum(axis=1)[:,None]
''', '''        norm = weights.sum(axis=1, keepdims=True)
        return np.sum(data * weights[:,:,None], axis=1) / norm
'''))
r('idw-noset', (I, '''    def set_scene(self, tracer_pos, interp_points, 
        data=None, companionship=None):
        """
        Adds to the base class only a precalculation of weights.
        """
        GeneralInterpolant.set_scene(self, tracer_pos, interp_points, data,
            companionship)
    
''', ''))
r('idw-super', (I, '''        GeneralInterpolant.set_interp_points(self, points, companionship)
        self._forego_laziness()
''', '''        super(InverseDistanceWeighter, self).set_interp_points(points, 
            companionship=companionship)
        self._forego_laziness()
'''))
r('jac-an', (I, '''        jac = self._par/self.__weights.sum(
                axis=1, keepdims=True)[:,None,None, 0] \\
            * np.sum(der_inv_dists[...,None,None]*rel_pos[:,:,None,:]*\\
                   vel_diffs[...,None], axis=1)
        
        return jac
''', '''        norm = self.__weights.sum(axis=1)[:,None,None]
        terms = vel_diffs[...,None] * rel_pos[:,:,None,:]
        terms = terms * der_inv_dists[...,None,None]
        return self._par * terms.sum(axis=1) / norm
'''))
r('read-int', (I, '''    kwds = {}
    if parser.has_option('Interpolant', 'num_neighbs'):
        kwds['num_neighbs'] = parser.getint('Interpolant', 'num_neighbs')
    if parser.has_option('Interpolant', 'radius'):
        kwds['radius'] = parser.getfloat('Interpolant', 'radius')
''', '''    kwds = {}
    for key, read in (('num_neighbs', parser.getint), 
        ('radius', parser.getfloat)):
        if parser.has_option('Interpolant', key):
            kwds[key] = read('Interpolant', key)
'''))
r('read-int-2', (I, '''    method = parser.get('Interpolant', 'method')
    if parser.has_option('Interpolant', 'param'):
        if method == 'corrfun': # The parameter is a file name.
            kwds['param'] = parser.get('Interpolant', 'param')
        else:
            kwds['param'] = parser.getfloat('Interpolant', 'param')
    
    return interpolant(method, **kwds)
''', '''    method = parser.get('Interpolant', 'method')
    if parser.has_option('Interpolant', 'param'):
        param = parser.get('Interpolant', 'param')
        kwds['param'] = param if method == 'corrfun' else float(param)
    
    return interpolant(method, **kwds)
'''))
r('save-int', (I, '''        for key, val in [('radius', self.radius()), 
            ('num_neighbs', self.num_neighbs()), ('param', self._par)]:
            if val is None:
                cfg.remove_option('Interpolant', key)
            else:
                cfg.set('Interpolant', key, str(val).replace('%', '%%'))
        cfg.set('Interpolant', 'method', self._method)
''', '''        values = {'radius': self._radius, 'num_neighbs': self._neighbs, 
            'param': self._par}
        cfg.set('Interpolant', 'method', self._method)
        for key in values:
            if values[key] is not None:
                cfg.set('Interpolant', key, str(values[key]).replace('%', '%%'))
            else:
                cfg.remove_option('Interpolant', key)
'''))
# ------------------------------------------------------------------- io.py
O = 'io.py'
r('frames-sorted', (O, '''            frame = int(match.group(1))

            if first is not None and frame < first: continue
            if last is not None and frame > last: continue
            # Note that we're reading one extra frame, otherwise the last frame
            # has 0 path segments.

            self._frame_nums.append(frame)
''', '''            frame = int(match.group(1))
            too_early = first is not None and frame < first
            too_late = last is not None and frame > last
            if too_early or too_late:
                continue
            
            self._frame_nums.append(frame)
'''))
r('frames-next', (O, '''        curframenum = self._frmix
        if len(self._frame_nums) <= curframenum:
            raise StopIteration
        
        frame = self._read_frame(self._frame_nums[curframenum])
        self._frmix += 1
        return self._frame_nums[curframenum], frame
''', '''        if self._frmix >= len(self._frame_nums):
            raise StopIteration
        
        frame_num = self._frame_nums[self._frmix]
        self._frmix += 1
        return frame_num, self._read_frame(frame_num)
'''))
r('single-next', (O, '''        for line in self._f:
            at_end = False
            if re.match(r'^\\s*$', line):
                break
            lines.append(line)
''', '''        for line in self._f:
            at_end = False
            if not line.strip():
                break
            lines += [line]
'''))
r('collect-one', (O, '''        path_age = frame - cur_frame
        
        if path_seg is True:
            segs = np.nonzero((table[:,-1] == path_age) & \\
                (np.roll(table[:,-1], -1) == path_age + 1))[0]
            in_frame = np.concatenate(
                (table[segs,:][None,...], table[segs + 1,:][None,...]), axis=0)
        else:
            in_frame = table[table[:,-1] == path_age]
        
        selected.append(in_frame)
''', '''        path_age = frame - cur_frame
        age = table[:,-1]
        
        if path_seg is not True:
            selected.append(table[age == path_age])
        else:
            segs = np.flatnonzero((age == path_age) & 
                (np.roll(age, -1) == path_age + 1))
            selected.append(np.array([table[segs], table[segs + 1]]))
'''))
r('collect-end', (O, '''    if path_seg is True:
        all_rows = np.concatenate(selected, axis=1)
        return all_rows[:,mark_unique_rows(all_rows[0])]
    else:
        all_rows = np.vstack(selected)
        return all_rows[mark_unique_rows(all_rows)]

def trajectories_mat''', '''    if path_seg is not True:
        all_rows = np.vstack(selected)
        return all_rows[mark_unique_rows(all_rows)]
    
    all_rows = np.concatenate(selected, axis=1)
    uniq = mark_unique_rows(all_rows[0])
    return all_rows[:,uniq]

def trajectories_mat'''))
r('mat-helper', (O, '''        pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
        vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
        accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
''', '''        pos, vel, accel = [np.hstack([traj[f] for f in fields])*1e-3 
            for fields in (('xf', 'yf', 'zf'), ('uf', 'vf', 'wf'), 
                ('axf', 'ayf', 'azf'))]
'''))
r('mat-name', (O, '''    data_name = [s for s in data.keys() \\
        if (not s.startswith('__')) and (not s == 'directory')][0]
    raw = data[data_name][:,0]
    
    trajects = []
''', '''    names = [s for s in data if not (s.startswith('__') or s == 'directory')]
    raw = data[names[0]][:,0]
    trajects = []
'''))
r('acc-loop', (O, '''        traj_starts = np.nonzero(table[:,-1] == 0)[0]
        traj_ends = np.r_[traj_starts[1:], table.shape[0]]
        
        for s, e in zip(traj_starts, traj_ends):
            trajects.append(Trajectory(
                table[s:e,0:3], table[s:e,3:6], table[s:e,-1] + frame,
                len(trajects), accel= table[s:e,6:9]))
''', '''        starts = np.flatnonzero(table[:,-1] == 0)
        ends = np.append(starts[1:], len(table))
        
        for s, e in zip(starts, ends):
            rows = table[s:e]
            traj = Trajectory(rows[:,:3], rows[:,3:6], rows[:,-1] + frame,
                len(trajects), accel=rows[:,6:9])
            trajects.append(traj)
'''))
r('acc-list', (O, '''        match = is_data_file.match(fname)
        if match is None: continue
        frame = int(match.group(1))
        
        if first is not None and frame < first: continue
        if last is not None and frame > last: continue
        frame_files.append((frame, fname))
    
    for frame, fname in sorted(frame_files):
''', '''        match = is_data_file.match(fname)
        if match is not None:
            frame = int(match.group(1))
            if (first is None or frame >= first) and \\
                (last is None or frame <= last):
                frame_files.append((frame, fname))
    
    frame_files.sort()
    for frame, fname in frame_files:
'''))
r('ptvis-list', (O, '''    return [t for t in iter_trajectories_ptvis(fname, first, last, frate, 
        xuap, traj_min_len)]
''', '''    return list(iter_trajectories_ptvis(fname, first, last, frate, xuap=xuap, 
        traj_min_len=traj_min_len))
'''))
r('ptvis-fmt', (O, '''    if xuap:
        fmt = np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8'),
                        ('pos_int', '3f8'), ('vel', '3f8'), ('acc', '3f8')])
        skip = 0
        count_base = 1
        def_tr_len = 2
    else:
        fmt = np.dtype([('prev', 'i4'), ('next', 'i4'), ('pos', '3f8')])
        skip = 1
        count_base = 0
        def_tr_len = 2
''', '''    fields = [('prev', 'i4'), ('next', 'i4'), ('pos', '3f8')]
    if xuap:
        fields += [('pos_int', '3f8'), ('vel', '3f8'), ('acc', '3f8')]
        skip, count_base = 0, 1
    else:
        skip, count_base = 1, 0
    fmt = np.dtype(fields)
    def_tr_len = 2
'''))
r('ptvis-vel', (O, '''        t = np.ones((table.shape[0], 1))*frame_num
        
        if 'vel' in fmt.fields:
            vel = table['vel']
        else:
            vel = np.zeros_like(pos)
        
        frame = np.hstack((pos, vel, t, traj[:,None]))
''', '''        t = np.full((len(table), 1), frame_num)
        vel = table['vel'] if xuap else np.zeros_like(pos)
        frame = np.hstack((pos, vel, t, traj[:,None]))
'''))
r('ptvis-base', (O, '''        cont = table['prev'] - count_base > -1
        traj = np.empty(table['prev'].shape)
''', '''        prev = table['prev'] - count_base
        cont = prev >= 0
        traj = np.empty(table['prev'].shape)
'''), (O, '''            prev_ix = table['prev'][cont] - count_base
''', '''            prev_ix = prev[cont]
'''))
r('ptvis-lens', (O, '''        ending_starts = np.r_[[traj_starts[trid] for trid in ending_trids]]
''', '''        ending_starts = np.array([traj_starts[trid] for trid in ending_trids])
'''))
r('traj-fmt', (O, '''    elif fmt == 'hdf':
        # The range of a scene does not include its end.
        scene = Scene(fname, (first, None if last is None else last + 1))
        # Trajectories completely out of range are read as empty.
        it = (t for t in scene.iter_trajectories() if len(t) > 0)
        if iter_allowed:
            traj = it
        else:
            traj = [t for t in it]
''', '''    elif fmt == 'hdf':
        # The range of a scene does not include its end.
        end = last + 1 if last is not None else None
        scene = Scene(fname, (first, end))
        # Trajectories completely out of range are read as empty.
        traj = (t for t in scene.iter_trajectories() if len(t) > 0)
        if not iter_allowed:
            traj = list(traj)
'''))
r('traj-filter', (O, '''        if iter_allowed:
            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
        else:
            traj = [tr for tr in traj if len(tr) >= traj_min_len]
''', '''        traj = (tr for tr in traj if len(tr) >= traj_min_len)
        if not iter_allowed:
            traj = list(traj)
'''))
r('infer', (O, '''    if fname.endswith('mat'):
        return 'mat'
    elif fname.endswith('/'):
        return 'npz'
    elif 'ptv_is' in fname or fname.endswith('.txt'):
        return 'ptvis'
    elif 'xuap' in fname:
        return 'xuap'
    elif fname.endswith('h5') or fname.endswith('hdf'):
        return 'hdf'
    else:
        return 'acc'
''', '''    fmt = 'acc'
    if fname.endswith('mat'):
        fmt = 'mat'
    elif fname.endswith('/'):
        fmt = 'npz'
    elif fname.endswith('.txt') or 'ptv_is' in fname:
        fmt = 'ptvis'
    elif 'xuap' in fname:
        fmt = 'xuap'
    elif fname.endswith(('h5', 'hdf')):
        fmt = 'hdf'
    return fmt
'''))
r('generic-sel', (O, '''        if path_seg is True:
            t = np.nonzero((traj.time()[:-1] == frame) & \\
                (traj.time()[1:] == frame + 1))[0]
            if len(t) == 0: continue
            
            t = t[0]
            sel = traj[t : t + 2].reshape(2, 1, -1)
            
        else:
            t = np.nonzero(traj.time() == frame)[0]
            if len(t) == 0: continue
            sel = traj[t[0]]
        
        selected.append(sel)
''', '''        time = traj.time()
        if path_seg is True:
            found = (time[:-1] == frame) & (time[1:] == frame + 1)
        else:
            found = time == frame
        
        t = np.nonzero(found)[0]
        if len(t) == 0: continue
        if path_seg is True:
            selected.append(traj[t[0] : t[0] + 2].reshape(2, 1, -1))
        else:
            selected.append(traj[t[0]])
'''))
r('frame-data', (O, '''    fname = parser.get("Scene", "tracer_file")
    tracer_trjs = trajectories(fname, first_frame, first_frame + 2, 
        frate, None)
    tracer_ixs = trajectories_in_frame(tracer_trjs, first_frame, segs=True)
    
    fname = parser.get("Scene", "part_file")
    part_trjs = trajectories(fname, first_frame, first_frame + 2, frate, None)
    part_ixs = trajectories_in_frame(part_trjs, first_frame, segs=True)
''', '''    def read(key):
        trjs = trajectories(parser.get("Scene", key), first_frame, 
            first_frame + 2, frate)
        return trjs, trajectories_in_frame(trjs, first_frame, segs=True)
    
    tracer_trjs, tracer_ixs = read("tracer_file")
    part_trjs, part_ixs = read("part_file")
'''))
r('save-npz', (O, '''        save_data = dict(('traj:' + k, v) \\
            for k, v in traj.as_dict().items())
        for k, v in per_traject_adds.items():
            save_data[k] = v[traj.trajid()]
        
        np.savez(os.path.join(output_dir, 'traj_%d' % traj.trajid()),
            **save_data)
''', '''        trid = traj.trajid()
        save_data = {}
        for k, v in traj.as_dict().items():
            save_data['traj:' + k] = v
        save_data.update((k, v[trid]) for k, v in per_traject_adds.items())
        np.savez(os.path.join(output_dir, 'traj_%d' % trid), **save_data)
'''))
r('table-trim', (O, '''    trim_len = 0 if trim is None else trim * 2
''', '''    if trim is None:
        trim = 0
    trim_len = 2 * trim
'''), (O, '''            if trim is None:
                arr[k] = v
            else:
                arr[k] = v[trim:len(traj) - trim]
''', '''            arr[k] = v[trim:len(traj) - trim]
'''))
r('table-len', (O, '''        if len(traj) - trim_len <= 0:
            continue
''', '''        num_rows = len(traj) - trim_len
        if num_rows < 1:
            continue
'''), (O, '''        arr = np.empty(len(traj) - trim_len, dtype=dtype)
''', '''        arr = np.empty(num_rows, dtype=dtype)
'''))
r('frames-minmax', (O, '''        min_pos = np.min(np.vstack((min_pos, frame.pos())), axis=0)
        max_pos = np.max(np.vstack((max_pos, frame.pos())), axis=0)
''', '''        pos = frame.pos()
        min_pos = np.minimum(min_pos, pos.min(axis=0))
        max_pos = np.maximum(max_pos, pos.max(axis=0))
'''))
r('frames-bounds', (O, '''            if trid in ongoing_trajects:
                # This allows for "hole frames". Otherwise we'd just wait for
                # the trajectory to disappear then record its end in time - 1.
                ongoing_trajects[trid][1] = frame.time()
            else:
                ongoing_trajects[trid] = np.r_[frame.time(), frame.time()]
''', '''            if trid not in ongoing_trajects:
                ongoing_trajects[trid] = [frame.time(), frame.time()]
            else:
                # This allows for "hole frames". Otherwise we'd just wait for
                # the trajectory to disappear then record its end in time - 1.
                ongoing_trajects[trid][1] = frame.time()
'''))
r('frames-skip', (O, '''        if len(frame) <= 0:
            continue
''', '''        num = len(frame)
        if num == 0:
            continue
'''), (O, '''        arr = np.empty(len(frame), dtype=dtype)
        arr['time']''', '''        arr = np.zeros(num, dtype=dtype)
        arr['time']'''))
r('table-with', (O, '''    outfile = tables.open_file(fname, mode='r')
    table = outfile.get_node('/particles')
    
    query_string = ('(trajid == trid)')
    if first is not None:
        query_string += " & (time >= %d)" % first
    if last is not None:
        query_string += " & (time <= %d)" % last
                
    trajects = []
    for trid in np.unique(table.col('trajid')):
        arr = table.read_where(query_string)
        kwds = dict((field, arr[field]) for field in arr.dtype.fields \\
            if field != 'trajid')
        kwds['trajid'] = trid
        trajects.append(Trajectory(**kwds))
    
    outfile.close()
    return trajects
''', '''    query = ['(trajid == trid)']
    if first is not None:
        query.append("(time >= %d)" % first)
    if last is not None:
        query.append("(time <= %d)" % last)
    query = ' & '.join(query)
    
    trajects = []
    with tables.open_file(fname, mode='r') as infile:
        table = infile.get_node('/particles')
        for trid in np.unique(table.col('trajid')):
            arr = table.read_where(query)
            kwds = dict((field, arr[field]) for field in arr.dtype.names)
            kwds['trajid'] = trid
            trajects.append(Trajectory(**kwds))
    
    return trajects
'''))
r('load-mask', (O, '''            in_range = np.ones(kwds['time'].shape, dtype=np.bool)
            if first is not None:
                in_range[kwds['time'] < first] = False
            if last is not None:
                in_range[kwds['time'] > last] = False
''', '''            time = kwds['time']
            in_range = np.ones(time.shape, dtype=bool)
            if first is not None:
                in_range &= time >= first
            if last is not None:
                in_range &= time <= last
'''))
r('load-comp', (O, '''            if in_range.sum() < 1:
                continue # Filter out empty trajectories (that are really empty
                         # or completely out of range)
            
            for k in kwds.keys():
                kwds[k] = kwds[k][in_range]
''', '''            if not in_range.any():
                continue # Filter out empty trajectories (that are really empty
                         # or completely out of range)
            
            kwds = dict((k, v[in_range]) for k, v in kwds.items())
'''))
r('load-add', (O, '''                per_traject_adds.setdefault(k, {})
                per_traject_adds[k][trajid] = data[k]
''', '''                per_traject_adds.setdefault(k, {})[trajid] = data[k]
'''))
# ------------------------------------------------ analysis.py, an_scene.py
A = 'analysis.py'
N = 'an_scene.py'
r('comp-where', (A, '''    idx = np.nonzero(trids[:,None] == companions)
    comp[idx[1]] = idx[0]
    return comp
''', '''    rows, cols = np.nonzero(trids[:,None] == companions[None,:])
    comp[cols] = rows
    return comp
'''))
r('analyse', (A, '''        if frame.particles.has_property('companion'):
            comp = companion_indices(
                frame.tracers.trajid(), frame.particles.companion())
        else:
            comp = None
        self._interp.set_scene(frame.tracers.pos(), frame.particles.pos(),
            frame.tracers.velocity(), comp)
        vel_interp = self._interp.interpolate()
        rel_vel = frame.particles.velocity() - vel_interp
        
        return [vel_interp, rel_vel]
''', '''        tracers, particles = frame.tracers, frame.particles
        comp = None
        if particles.has_property('companion'):
            comp = companion_indices(tracers.trajid(), particles.companion())
        self._interp.set_scene(tracers.pos(), particles.pos(),
            tracers.velocity(), companionship=comp)
        fluid_vel = self._interp.interpolate()
        return [fluid_vel, particles.velocity() - fluid_vel]
'''))
r('analysis-loop', (A, '''        for analyser in analysers:
            analysis = analyser.analyse(frame, next_frame)
            this_descr = analyser.descr()
            
            for res, desc in zip(analysis, this_descr):
                arr[desc[0]] = res
''', '''        for analyser in analysers:
            results = analyser.analyse(frame, next_frame)
            for (name, _, _), res in zip(analyser.descr(), results):
                arr[name] = res
'''))
r('analysis-descr', (A, '''    descr = [('trajid', int), ('time', int)]
    for analyser in analysers:
        descr.extend(analyser.descr())
    descr = np.dtype(descr)
''', '''    fields = [('trajid', int), ('time', int)]
    for analyser in analysers:
        fields += analyser.descr()
    descr = np.dtype(fields)
'''))
r('analysis-len', (A, '''        length = len(frame.particles)
        arr = np.empty(length, dtype=descr)
        arr['trajid'] = frame.particles.trajid()
        arr['time'] = frame.particles.time()
''', '''        particles = frame.particles
        arr = np.zeros(len(particles), dtype=descr)
        arr['time'] = particles.time()
        arr['trajid'] = particles.trajid()
'''))
r('an-conds', (N, '''        part_cond = None
        an_cond = None
        
        pkeys = set(self._scene.get_particles().keys())
        if where is not None:
            pc_add = []
            an_cond_add = []
            
            for key, rng in where.items():
                cond_string = gen_query_string(key, rng)                
                if key in pkeys:
                    pc_add.append(cond_string)
                else:
                    an_cond_add.append(cond_string)
            
            if len(pc_add) != 0:
                part_cond = ' & '.join(pc_add)
            if len(an_cond_add) != 0:
                an_cond = ' & '.join(an_cond_add)
''', '''        pkeys = self._scene.get_particles().keys()
        pc_add = []
        an_cond_add = []
        if where is not None:
            for key, rng in where.items():
                target = pc_add if key in pkeys else an_cond_add
                target.append(gen_query_string(key, rng))
        
        part_cond = ' & '.join(pc_add) if pc_add else None
        an_cond = ' & '.join(an_cond_add) if an_cond_add else None
'''))
r('an-loop', (N, '''        for tr_frm, an_frm in dframe_it:
            # Cross reference matching rows.
            tp, p_arr = tr_frm
            ta, a_arr = an_frm
''', '''        for (_, p_arr), (_, a_arr) in dframe_it:
            # Cross reference matching rows.
'''))
r('an-isin', (N, '''            in_p = np.array([True if tr in trajids else False \\
                for tr in p_trids])
            in_a = np.array([True if tr in trajids else False \\
                for tr in a_trids])
            
            if len(in_p) > 0:
                p_arr = p_arr[in_p]
            if len(a_arr) > 0:
                a_arr = a_arr[in_a]
''', '''            in_p = np.array([tr in trajids for tr in p_trids], dtype=bool)
            in_a = np.array([tr in trajids for tr in a_trids], dtype=bool)
            p_arr = p_arr[in_p]
            a_arr = a_arr[in_a]
'''))
r('an-keys', (N, '''            for k in keys:
                if k in pkeys:
                    res[k].append(p_arr[k])
                else:
                    res[k].append(a_arr[k])
''', '''            for k in keys:
                source = p_arr if k in pkeys else a_arr
                res[k].append(source[k])
'''))
r('an-traj', (N, '''        kwds = dict((k, v[analysed]) for k, v in traj.as_dict().items())
        kwds['trajid'] = trid
''', '''        kwds = {'trajid': trid}
        for k, v in traj.as_dict().items():
            kwds[k] = v[analysed]
'''))
r('an-traj-2', (N, '''        for field in arr.dtype.fields:
            if field not in ['trajid', 'time']:
                kwds[field] = arr[field]
        
        return Trajectory(**kwds)
''', '''        kwds.update((field, arr[field]) for field in arr.dtype.fields 
            if field not in ('trajid', 'time'))
        return Trajectory(**kwds)
'''))
# -------------------------------------------------- smoothing, pairs, graphics
M = 'smoothing.py'
r('sg-coef', (M, '''    b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
''', '''    ks = np.arange(-half_window, half_window + 1)
    b = ks[:,None] ** np.arange(order + 1)
'''))
r('sg-helper', (M, '''            newpos.append(np.convolve( m_pos[::-1], y, mode='valid'))
            newvel.append(np.convolve( m_vel[::-1], y, mode='valid'))
            newacc.append(np.convolve( m_acc[::-1], y, mode='valid'))
            jerk.append(np.convolve( m_jerk[::-1], y, mode='valid'))
''', '''            for res, coeffs in ((newpos, m_pos), (newvel, m_vel), 
                (newacc, m_acc), (jerk, m_jerk)):
                res.append(np.convolve(coeffs[::-1], y, mode='valid'))
'''))
r('sg-pad', (M, '''            firstvals = y[0] - np.abs( y[1:half_window+1][::-1] - y[0] )
            lastvals = y[-1] + np.abs(y[-half_window-1:-1][::-1] - y[-1])
            y = np.concatenate((firstvals, y, lastvals))
''', '''            head = np.abs(y[1:half_window + 1] - y[0])[::-1]
            tail = np.abs(y[-half_window - 1:-1] - y[-1])[::-1]
            y = np.r_[y[0] - head, y, y[-1] + tail]
'''))
r('sg-len', (M, '''        if len(traj) < window_size:
            continue
''', '''        if window_size > len(traj):
            continue
'''))
r('sg-copy', (M, '''        for k, v in traj.as_dict().items():
            if k not in smoothed_keys:
                newtraj.create_property(k, v)
''', '''        props = traj.as_dict()
        for k in props:
            if k in smoothed_keys:
                continue
            newtraj.create_property(k, props[k])
'''))
r('sg-next', (M, '''        nextvel = np.vstack((np.zeros(3), newvel + newacc/fps + jerk/2./fps**2))[:-1]
        nextacc = np.vstack((np.zeros(3), newacc + jerk/fps))[:-1]
''', '''        dt = 1./fps
        predvel = newvel + newacc*dt + 0.5*jerk*dt**2
        predacc = newacc + jerk*dt
        nextvel = np.vstack((np.zeros(3), predvel[:-1]))
        nextacc = np.vstack((np.zeros(3), predacc[:-1]))
'''))
r('sg-T', (M, '''        newpos = np.r_[newpos].T
        newvel = np.r_[newvel].T
        newacc = np.r_[newacc].T
        jerk = np.r_[jerk].T
''', '''        newpos, newvel, newacc, jerk = [np.array(l).T 
            for l in (newpos, newvel, newacc, jerk)]
'''))
P = 'pairs.py'
r('pairs-dist', (P, '''        dists_sq = np.sum(
            (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
            axis=2)
        pair_ixs = np.argmin(dists_sq, axis=1)
''', '''        diffs = prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:]
        dists = np.linalg.norm(diffs, axis=2)
        pair_ixs = dists.argmin(axis=1)
'''))
r('pairs-frames', (P, '''    for traj in prim_traj:
        traj_coords = trajids == traj.trajid()
        frames[traj_coords] = traj.time(time_points[traj_coords])
''', '''    for traj in prim_traj:
        mine = (trajids == traj.trajid())
        frames[mine] = traj.time()[time_points[mine]]
'''))
r('pairs-skip', (P, '''        if len(sec_in_frame) == 0:
            pair_trids[coord_locator] = -1
            pair_time[coord_locator] = -1
            continue
''', '''        if not sec_in_frame:
            continue
'''))
r('pairs-back', (P, '''    for traj in secondary_trajects:
        trid = traj.trajid()
        if trid not in unique_sec: continue
        pair_time[pair_trids == trid] -= int(traj.time(0))
''', '''    for traj in secondary_trajects:
        trid = traj.trajid()
        if trid in unique_sec:
            found_here = pair_trids == trid
            pair_time[found_here] = pair_time[found_here] - int(traj.time()[0])
'''))
G = 'graphics.py'
r('pdf-bins', (G, '''    if log_bins:
        data = data[data > 0] 
        minv = np.min(data)
        bins = np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)
    else:
        bins = num_bins
    
    hist, bin_edges = np.histogram(data, bins=bins, density=True)
    return hist, bin_edges
''', '''    bins = num_bins
    if log_bins:
        data = data[data > 0] 
        lims = np.log10(data.min()), np.log10(data.max())
        bins = np.logspace(lims[0], lims[1], num_bins + 1)
    
    return np.histogram(data, bins=bins, density=True)
'''))
r('disp', (G, '''    if log_bins:
        plt = pl.loglog if log_density else pl.semilogx
    else:
        plt = pl.semilogy if log_density else pl.plot
        
    lines = plt(bin_edges, hist, marker)
''', '''    if log_bins and log_density:
        plt = pl.loglog
    elif log_bins:
        plt = pl.semilogx
    elif log_density:
        plt = pl.semilogy
    else:
        plt = pl.plot
    
    lines = plt(bin_edges, hist, marker)
'''))
r('plotv', (G, '''    for subplt in range(3):
        pl.subplot(3,1,subplt + 1)
        pl.plot(indep, vecs[:,subplt], marker)
''', '''    for subplt, label in enumerate(labels):
        comp = vecs[:,subplt]
        pl.subplot(3,1,subplt + 1)
        pl.plot(indep, comp, marker)
'''), (G, '''        pl.ylabel(labels[subplt])
''', '''        pl.ylabel(label)
'''))
r('particle', ('particle.py', '''        return np.pi * self.diam**3 / 6.
''', '''        radius = self.diam / 2.
        return 4./3. * np.pi * radius**3
'''))
