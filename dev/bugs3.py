"""A third set: caches, cooperating sites, states kept too long, rare inputs."""
from bugs import b, T, S, I, N, A, X, P, M, G, Q, R
# --- trajectory
b('3-shared-attrs', (T, "        self._check_attr = [] # Attrs to look for when concatenating bundles\n", ""),
  (T, '''    def __init__(self, pos, velocity, **kwds):
        """
        Arguments:
        pos - a (t,3) array, the position of one particle in t time-points,
            [m].
        velocity - (t,3) array, corresponding velocity, [m/s].
        kwds - keyword arguments should be arrays whose first dimension == t.
            these are treated as extra attributes to be sliced when creating
            segments.
        """
        base_vals''', '''    _check_attr = []
    def __init__(self, pos, velocity, **kwds):
        base_vals'''))
b('3-getter-memo', T, '''        def getter(self, selector=None):
            if selector is None:
                return self.__dict__[attr]
            else:
                return self.__dict__[attr][selector]
''', '''        memo = {}
        def getter(self, selector=None):
            if selector is None:
                return self.__dict__[attr]
            if isinstance(selector, int):
                if selector not in memo:
                    memo[selector] = self.__dict__[attr][selector]
                return memo[selector]
            return self.__dict__[attr][selector]
''')
b('3-setter-broadcast', T, '''                self.__dict__[attr][selector] = new_val
''', '''                self.__dict__[attr] = self.__dict__[attr].copy()
                self.__dict__[attr][:len(selector)] = new_val
''')
b('3-schema-cached', T, '''        return dict((propname, self.__dict__['_' + propname].shape[1:]) \\
            for propname in self._check_attr)
    
    def ext''', '''        if not hasattr(self, '_schema'):
            self._schema = dict((propname,
                self.__dict__['_' + propname].shape[1:]) \\
                for propname in self._check_attr)
        return self._schema
    
    def ext''')
b('3-asdict-cached', T, '''        return dict((propname, self.__dict__['_' + propname]) \\
            for propname in self._check_attr)
    
    def __len__''', '''        if not hasattr(self, '_as_dict'):
            self._as_dict = dict((propname, self.__dict__['_' + propname]) \\
                for propname in self._check_attr)
        return self._as_dict
    
    def __len__''')
b('3-getitem-id32', T, "np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))",
  "np.full(self._pos[selector].shape[:-1] + (1,), self._id, dtype=np.float32)))")
b('3-tif-stale-starts', T, '''    if start_times is None or end_times is None:
''', '''    if start_times is None and end_times is None:
''')
b('3-tif-seg-filter', T, '''        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)
''', '''        frm_ixs = (end_frm - start_times[cands]).astype(np.int64)
''')
b('3-snap-vel-frame', T, '''        first_frame = traj.time()[0]
        for prop in copy_keys:
            kwds[prop][trix] = traj.__dict__[prop](int(frame - first_frame))
''', '''        first_frame = traj.time()[0]
        for prop in copy_keys:
            kwds[prop][trix] = traj.__dict__[prop](
                min(int(frame - first_frame), len(traj) - 2))
''')
b('3-snap-defaults', T, '''def take_snapshot(trajects, frame, schema):
''', '''def take_snapshot(trajects, frame, schema, kwds={}):
''')
b('3-uniq-round', T, '''    srt = np.lexsort(all_rows[:,:3].T)
    diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
''', '''    srt = np.lexsort(all_rows[:,:3].T)
    diff = (np.abs(np.diff(all_rows[srt,:3], axis=0)) > 1e-9).any(axis=1)
''')
b('3-uniq-lastcols', T, "np.diff(all_rows[srt,:3], axis=0).any(axis=1)",
  "np.diff(all_rows[srt,:2], axis=0).any(axis=1)")
b('3-smooth-time', T, '''        return Trajectory(new_pos, new_vel, self.time(), self.trajid(),
            accel=new_accel)''', '''        return Trajectory(new_pos, new_vel, self.time()[0] +
            eval_prms*(self.time()[-1] - self.time()[0]), self.trajid(),
            accel=new_accel)''')
# --- scene
b('3-scene-trids-range', S, '''        self._frame_limit = ' & '.join(rng_exprs)
''', '''        self._frame_limit = ' & '.join(rng_exprs)
        if self._frame_limit:
            self._trids = np.unique(self._table.read_where(self._frame_limit,
                field='trajid'))
''')
b('3-scene-byid-cache', (S, "        self.set_frame_range(frame_range)\n        \n        # Cache",
  "        self._by_id = {}\n        self.set_frame_range(frame_range)\n        \n        # Cache"),
  (S, '''        kwds['trajid'] = trid
        return Trajectory(**kwds)
        
    def iter_traj''', '''        kwds['trajid'] = trid
        return self._by_id.setdefault(trid, Trajectory(**kwds))
        
    def iter_traj'''))
b('3-scene-query-init', (S, "        self.set_frame_range(frame_range)\n        \n        # Cache",
  "        self.set_frame_range(frame_range)\n        self._query = '(trajid == trid)'\n        if self._frame_limit != '':\n            self._query += ' & ' + self._frame_limit\n        # Cache"),
  (S, '''        query_string = '(trajid == trid)'
        if self._frame_limit != '':
            query_string += ' & ' + self._frame_limit
        
        for trid in''', '''        query_string = self._query
        for trid in'''))
b('3-scene-first-zero', S, '''        if first is None:
            t = self._table.col('time')
            self._first = int(t.min())
        else:
            self._first = first
            rng''', '''        if not first:
            t = self._table.col('time')
            self._first = int(t.min())
        else:
            self._first = first
            rng''')
b('3-scene-last-limit', S, '''        if last is None:
            t = self._table.col('time')
            self._last = int(t.max()) + 1
''', '''        if last is None:
            t = self._table.col('time')
            self._last = int(t.max()) + 1
            if first is not None:
                rng_exprs.append("(time < %d)" % (self._last - 1))
''')
b('3-scene-none-keeps', S, '''        self._frame_limit = ""
        
        if frame_range is None:
''', '''        if frame_range is None:
''')
b('3-scene-frames-cond', S, "        return self._first, self._last\n",
  "        return self._first, self._last - 1\n")
b('3-seg-prev-cached', S, '''            trajids = set(arr_trids) & set(next_arr_trids)
''', '''            trajids = set(arr_trids[:len(next_arr_trids)]) & set(next_arr_trids)
''')
b('3-seg-skip-empty', S, '''            # select only those from the two frames:
            in_arr = np.array([True if tr in trajids else False \\
                for tr in arr_trids])
            in_next_arr''', '''            if len(trajids) == 0:
                continue
            # select only those from the two frames:
            in_arr = np.array([True if tr in trajids else False \\
                for tr in arr_trids])
            in_next_arr''')
b('3-seg-time', S, "            kwds['time'] = tn\n", "            kwds['time'] = t + 1 if len(next_arr) > 0 else t\n")
b('3-query-swap', S, '''    smin, smax, invert = range_spec
''', '''    smin, smax, invert = range_spec
    if smin > smax:
        smin, smax = smax, smin
''')
b('3-query-equal', S, "    cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')\n",
  "    cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')\n    if smin == smax: cop2 = '<='\n")
b('3-collect-lastcond', S, '''            for key, rng in where.items():
                conds.append(gen_query_string(key, rng))
        cond_string''', '''            for key, rng in where.items():
                cond = gen_query_string(key, rng)
            conds.append(cond)
        cond_string''')
b('3-collect-cached', (S, "        self._keys = []\n        self._shapes = []\n", "        self._keys = []\n        self._shapes = []\n        self._cols = {}\n", 1),
  (S, "            return [self._table.col(k) for k in keys]\n", "            for k in keys:\n                if k not in self._cols:\n                    self._cols[k] = self._table.col(k)\n            return [self._cols[k] for k in keys]\n"))
b('3-collect-unhashable', S, "        if len(keys) == 1:\n            return [self._table.read_where(cond_string, field=keys[0])]\n",
  "        if len(set(keys)) == 1:\n            return [self._table.read_where(cond_string, field=keys[0])]\n")
b('3-box-nan', S, "min_pos, max_pos = poses.min(axis=0), poses.max(axis=0)",
  "min_pos, max_pos = np.sort(poses, axis=0)[0], np.sort(poses, axis=0)[-2]")
b('3-dual-range-or', S, '''        if frame_range != -1:
            self._particles.set_frame_range(frame_range)
            self._tracers.set_frame_range(frame_range)
    
        try:
            for part_frames''', '''        if frame_range != -1 and frame_range is not None:
            self._particles.set_frame_range(frame_range)
            self._tracers.set_frame_range(frame_range)
    
        try:
            for part_frames''')
b('3-dual-reuse-frame', S, '''            for particles, tracers in zip(
                self._particles.iter_frames(), self._tracers.iter_frames()):
                frame = Frame()
''', '''            frame = Frame()
            for particles, tracers in zip(
                self._particles.iter_frames(), self._tracers.iter_frames()):
''')
b('3-dual-rng-kept', S, '''                self._particles.set_frame_range(self._rng)
                self._tracers.set_frame_range(self._rng)
    
    def iter_seg''', '''                self._rng = frame_range
                self._particles.set_frame_range(self._rng)
                self._tracers.set_frame_range(self._rng)
    
    def iter_seg''')
b('3-dualconf-last', S, "parser.getint(\"Scene\", \"last frame\") + 1)", "parser.getint(\"Scene\", \"last frame\"))")
# --- io
b('3-frames-cache', I, '''        frame = self._read_frame(self._frame_nums[curframenum])
        self._frmix += 1
''', '''        frame = self._read_frame(self._frame_nums[0] + curframenum)
        self._frmix += 1
''')
b('3-frames-window', I, '''            if first is not None and frame < first: continue
            if last is not None and frame > last: continue
            # Note that we're reading one extra frame, otherwise the last frame
            # has 0 path segments.

            self''', '''            if first is not None and frame < first: continue
            if last is not None and frame > last + 1: continue
            # Note that we're reading one extra frame, otherwise the last frame
            # has 0 path segments.

            self''')
b('3-single-eofs', I, '''        if len(lines) == 0: # No particles in this frame
            frame = np.empty(0, dtype=self._fmt)
        else:
            frame = self._read_frame(StringIO("".join(lines)))
        self._frmix += 1
''', '''        if len(lines) == 0: # No particles in this frame
            frame = np.empty(0, dtype=self._fmt)
        else:
            frame = self._read_frame(StringIO("".join(lines)))
            self._frmix += 1
''')
b('3-ptvis-vel-frate', I, "                (pos[cont] - frames[-1][prev_ix,:3]) * frate\n",
  "                (pos[cont] - frames[-1][prev_ix,:3]) * frate / (frame_num - frames[-1][0,6])\n")
b('3-ptvis-starts-max', I, "            traj_starts[trid] = fix + 1\n", "            traj_starts[trid] = fix + frame_buffer_start\n")
b('3-ptvis-discard', I, '''            new_start = min([traj_starts[trid] for trid in cont_trids])
''', '''            new_start = max([traj_starts[trid] for trid in cont_trids])
''')
b('3-ptvis-newstart', I, '''        if len(cont_trids) == 0:
            new_start = fix
''', '''        if len(cont_trids) == 0:
            new_start = fix + 2
''')
b('3-ptvis-mtraj', I, "        max_traj += num_new_traj\n", "        max_traj = max(max_traj, num_new_traj + len(trids))\n")
b('3-ptvis-links-xuap', I, '''        cont = table['prev'] - count_base > -1
''', '''        cont = table['prev'] > -1
''')
b('3-ptvis-accel', I, "            accel[:-2] = (traj.velocity()[1:-1] - traj.velocity()[:-2]) * frate\n",
  "            accel[:-2] = (traj.velocity()[2:] - traj.velocity()[1:-1]) * frate\n")
b('3-acc-id-file', I, "                len(trajects), accel= table[s:e,6:9]))\n",
  "                len(trajects) if s > 0 else frame, accel= table[s:e,6:9]))\n")
b('3-mat-unit-acc', I, "        accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.\n",
  "        accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1e6\n")
b('3-mat-var', I, "(not s == 'directory')][0]", "(not s == 'directory')][-1]")
b('3-hdf-last', I, "(first, None if last is None else last + 1)", "(first, last + 1 if last else None)")
b('3-hdf-first', I, "(first, None if last is None else last + 1)", "(first or None, None if last is None else last + 1)")
b('3-trim-one-end', I, "                arr[k] = v[trim:len(traj) - trim]\n", "                arr[k] = v[trim:-trim] if k != 'time' else v[:len(arr)]\n")
b('3-table-bounds', I, "(traj.trajid(), arr['time'][0], arr['time'][-1])])", "(traj.trajid(), traj.time()[0], traj.time()[-1])])")
b('3-table-reuse', I, "        arr = np.empty(len(traj) - trim_len, dtype=dtype)\n        arr['trajid']",
  "        if arr is None or len(arr) < len(traj) - trim_len:\n            arr = np.empty(len(traj) - trim_len, dtype=dtype)\n        arr['trajid']")
b('3-frames-bounds-hole', I, "                ongoing_trajects[trid][1] = frame.time()\n",
  "                ongoing_trajects[trid][1] += 1\n")
b('3-frames-extent', I, "    max_pos = np.full(3, -np.inf)\n", "    max_pos = np.zeros(3)\n")
b('3-load-adds-shared', I, "                per_traject_adds.setdefault(k, {})\n                per_traject_adds[k][trajid] = data[k]\n",
  "                per_traject_adds[k] = {trajid: data[k]}\n")
b('3-load-id', I, "int(tr_file.split('.')[0][5:])", "int(tr_file.split('.')[0][-4:])")
b('3-load-id2', I, "int(tr_file.split('.')[0][5:])", "len(trajects)")
b('3-trajtable-last', I, '        query_string += " & (time <= %d)" % last\n', '        query_string += " & (time < %d)" % last\n')
b('3-generic-row', I, "            sel = traj[t : t + 2].reshape(2, 1, -1)\n", "            sel = traj[[t, t - 1]].reshape(2, 1, -1)\n")
b('3-generic-uniq', I, '''        all_rows = np.concatenate(selected, axis=1)
        return all_rows[:,mark_unique_rows(all_rows[0])]
    else:
        all_rows = np.vstack(selected)
        return all_rows[mark_unique_rows(all_rows)]


def read''', '''        all_rows = np.concatenate(selected, axis=1)
        return all_rows[:,mark_unique_rows(all_rows[1])]
    else:
        all_rows = np.vstack(selected)
        return all_rows[mark_unique_rows(all_rows)]


def read''')
b('3-frame-conf', I, '''        frame.particles = take_snapshot([part_trjs[t] for t in part_ixs],
            frame_num, part_trjs[0].schema())
''', '''        frame.particles = take_snapshot([part_trjs[t] for t in part_ixs],
            first_frame, part_trjs[0].schema())
''')
# --- interpolation
b('3-comp-zero', N, "        cif = companionship >= 0.  # companion in frame\n", "        cif = companionship > 0.  # companion in frame\n")
b('3-comp-last', N, "            keep &= active_neighbs != comp[:, None]\n", "            keep &= active_neighbs != np.abs(comp)[:, None]\n")
b('3-neighb-plus1', N, "interp_pts, self._neighbs + 2, distance", "interp_pts, self._neighbs + 1, distance")
b('3-cache-samedata', N, '''        self.__data = data
        self.__matched_data = None
''', '''        if getattr(self, '_GeneralInterpolant__data', None) is data:
            return
        self.__data = data
        self.__matched_data = None
''')
b('3-comp-keep', N, '''        if companionship is None:
            self.__comp = None
        else:
            self.__comp''', '''        if companionship is not None:
            self.__comp''')
b('3-weights-once', N, '''        GeneralInterpolant._forego_laziness(self)
        self.__weights = ''', '''        first = self.__dict__.get('_GeneralInterpolant__dists') is None
        GeneralInterpolant._forego_laziness(self)
        if first: self.__weights = ''')
b('3-rbf-dists-lazy', N, '''        if self._method == 'rbf':
            self.__tracer_dists, _ = select''', '''        if self._method == 'rbf' and not hasattr(self, '_GeneralInterpolant__tracer_dists'):
            self.__tracer_dists, _ = select''')
b('3-trim-weights', N, '''        GeneralInterpolant.trim_points(self, which)
        self.__weights = self.__weights[~which]
''', '''        GeneralInterpolant.trim_points(self, which)
        self.__weights = self.__weights[:len(self.current_dists())]
''')
b('3-trim-rel', N, "            self.__rel_pos = self.__rel_pos[keep]\n", "            self.__rel_pos = self.__rel_pos[which]\n")
b('3-call-sets', N, '''        # Here the j-th column is for the j-th tracer, for all points.
        unused''', '''        self.set_data_on_current_field(data)
        unused''')
b('3-empty-shape', N, '''            ret_shape = self.__data.shape[-1] if self.__data.ndim > 1 else 1
            return np.zeros((self.__interp_pts.shape[0], ret_shape))
''', '''            return np.zeros((self.__interp_pts.shape[0], 3))
''')
b('3-subset-kept', N, '''        act_neighbs = self.__active_neighbs if subset is None else subset
            ''', '''        if subset is not None:
            self.__active_neighbs = subset
        act_neighbs = self.__active_neighbs
            ''')
b('3-power-int', N, "        weights = dists**-self._par\n", "        weights = dists**-int(self._par)\n")
b('3-par-zero', N, '''        if param is None: 
            param = 1
''', '''        param = param or 1
''')
b('3-radius-zero', N, '''        if self._radius is None:
            self._upb = np.inf
''', '''        if not self._radius:
            self._upb = np.inf
''')
b('3-conf-int', N, "kwds['param'] = parser.getfloat('Interpolant', 'param')", "kwds['param'] = int(parser.getfloat('Interpolant', 'param'))")
b('3-conf-radius', N, '''            if val is None:
                cfg.remove_option('Interpolant', key)
''', '''            if val is None:
                continue
''')
b('3-eps-comp', N, "        ret = (ret - local_interp[:,:,None]) / eps\n", "        ret = (ret - local_interp[:,:,None]) / (2*eps)\n")
b('3-jac-noself', N, "        der_inv_dists = dists**-(self._par + 2) # m x k\n", "        der_inv_dists = dists**-(self._par + 1) # m x k\n")
b('3-ndists', N, "            ndists[pt, :use_parts[pt].sum()] = dists[pt, use_parts[pt]]\n",
  "            ndists[pt, -use_parts[pt].sum():] = dists[pt, use_parts[pt]]\n")
# --- analysis
b('3-an-desc-time', A, "        arr['time'] = frame.particles.time()\n", "        arr['time'] = next_frame.particles.time()\n")
b('3-an-vel-next', A, "            frame.tracers.velocity(), comp)\n", "            next_frame.tracers.velocity(), comp)\n")
b('3-an-comp-none', A, '''        else:
            comp = None
''', '''        else:
            comp = getattr(self, '_comp', None)
''')
b('3-an-comp-keep', (A, "        else:\n            comp = None\n", "            self._comp = comp\n        else:\n            comp = self._comp\n"),
  (A, "        self._interp = interp\n", "        self._interp = interp\n        self._comp = None\n"))
b('3-an-order', A, '''            for res, desc in zip(analysis, this_descr):
                arr[desc[0]] = res
''', '''            for res, name in zip(analysis, descr.names[2:]):
                arr[name] = res
''')
b('3-comp-dup', A, "    comp[idx[1]] = idx[0]\n", "    comp[np.unique(idx[1])] = idx[0]\n")
b('3-as-filter', X, '''            if len(a_arr) > 0:
                a_arr = a_arr[in_a]
''', '''            if len(p_arr) > 0:
                a_arr = a_arr[in_a]
''')
b('3-as-keysprio', X, "                if key in pkeys:\n                    pc_add", "                if key not in self._keys:\n                    pc_add")
b('3-as-res-shared', X, "        res = dict((k, []) for k in keys)\n", "        res = dict.fromkeys(keys, [])\n")
b('3-as-range', X, "        for t in range(*self._scene.get_range()):\n", "        for t in range(self._scene.get_range()[0], self._scene.get_range()[1] - 1):\n")
b('3-as-shapes', X, "        return self._scene.get_particles().shapes() + self._shapes\n", "        shapes = self._scene.get_particles().shapes()\n        shapes += self._shapes\n        return shapes\n")
b('3-as-keys', X, "        return list(self._scene.get_particles().keys()) + self._keys\n", "        keys = self._scene.get_particles().keys()\n        keys.extend(k for k in self._keys if k not in keys)\n        return keys\n")
# --- sequence
b('3-seq-sel-late', Q, "        self._psel = selector\n        self.__ptraj = None\n", "        self._psel = selector\n")
b('3-seq-tsel', Q, "        self._tsel = selector\n        self.__ttraj = None\n", "        self._tsel = selector\n        self.__ptraj = None\n")
b('3-seq-rng-alter', Q, '''        # Make sure the particle trajectory cache is populated.
''', '''        self._rng = (first, last)
        # Make sure the particle trajectory cache is populated.
''')
b('3-seq-next-ixs', Q, '''            next_frame.particles = take_snapshot(part_trjs, frame_num + 1,
                self.__schema)
''', '''            next_ixs = trajectories_in_frame(self.__ptraj, frame_num + 1,
                self.__pstarts, self.__pends)
            next_frame.particles = take_snapshot(
                [self.__ptraj[t] for t in next_ixs], frame_num + 1,
                self.__schema)
''')
b('3-seq-tstarts', Q, "                self.__tstarts, self.__tends, segs=True)\n", "                self.__tstarts, self.__pends, segs=True)\n")
b('3-map-first', Q, "            first_frames[trid] = t[in_range][0]\n", "            first_frames[trid] = max(t[0], subrange[0])\n")
b('3-map-sub', Q, "            in_range = (t >= subrange[0]) & (t < subrange[1])\n", "            in_range = (t >= subrange[0]) & (t <= subrange[1])\n")
b('3-map-hist', Q, "                fargs = (self, frame, next_frame, res) + args\n", "                fargs = (self, frame, next_frame, dict(res)) + args\n")
b('3-conf-min', Q, '''        if traj_min_len is None:
            traj_min_len = parser.getint("Scene", "trajectory minimal length")
''', '''        if not traj_min_len:
            traj_min_len = parser.getint("Scene", "trajectory minimal length")
''')
b('3-conf-smooth', Q, '''        if smooth is None:
            smooth = parser.getboolean("Scene", "apply smoothing")
''', '''        if not smooth:
            smooth = parser.getboolean("Scene", "apply smoothing")
''')
b('3-sub-selector', Q, '''        trs = self.particle_trajectories()
        mins''', '''        trs = trajectories(self._ptmpl, self._rng[0], self._rng[1],
            self.frate, self._pfmt, self._minlen)
        mins''')
# --- smoothing, pairs, graphics
b('3-sg-pad', M, "lastvals = y[-1] + np.abs(y[-half_window-1:-1][::-1] - y[-1])", "lastvals = y[-1] + np.abs(y[-half_window:][::-1] - y[-1])")
b('3-sg-len', M, "        if len(traj) < window_size:\n", "        if len(traj) <= window_size:\n")
b('3-sg-keys', M, "        'trajid']\n", "        'trajid', 'companion']\n")
b('3-sg-fps', M, "    m_jerk = m[3] * (fps**3 * 6)\n", "    m_jerk = m[3] * (fps**2 * 6)\n")
b('3-pp-dup', P, "        pair_trids[coord_locator] = sec_parts.trajid(pair_ixs[prim_ixs])\n", "        pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)[:coord_locator.sum()]\n")
b('3-pp-noframe', P, "            pair_time[coord_locator] = -1\n            continue\n", "            pair_time[coord_locator] = 0\n            continue\n")
b('3-pp-self', P, "        pair_time[pair_trids == trid] -= int(traj.time(0))\n", "        pair_time[pair_trids == trid] -= int(traj.time(0)) - 1\n")
b('3-pdf-edges', G, "    generalized_histogram_disp(hist, bin_edges[:-1], log, log_density,\n", "    generalized_histogram_disp(hist, bin_edges[1:], log, log_density,\n")
b('3-vec-scale', G, "+ vecs[:,subplt].mean())", "+ vecs.mean())")
b('3-vol', R, "return np.pi * self.diam**3 / 6.", "return np.pi * self.diam**3 * (1/6)") 
