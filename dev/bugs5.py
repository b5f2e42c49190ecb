"""A fifth set: two places, several steps, or unusual inputs."""
from bugs import b, T, S, I, N, A, X, P, M, G, Q, R
# --- dual scene: what is left behind
b('5-dual-nofin', S, '''        try:
            for particles, tracers in zip(
                self._particles.iter_frames(), self._tracers.iter_frames()):
                frame = Frame()
                frame.tracers = tracers
                frame.particles = particles
                yield frame
        
        finally:
            # restore original frame range.
            if frame_range != -1:
                self._particles.set_frame_range(self._rng)
                self._tracers.set_frame_range(self._rng)
''', '''        for particles, tracers in zip(
            self._particles.iter_frames(), self._tracers.iter_frames()):
            frame = Frame()
            frame.tracers = tracers
            frame.particles = particles
            yield frame
        
        # restore original frame range.
        if frame_range != -1:
            self._particles.set_frame_range(self._rng)
            self._tracers.set_frame_range(self._rng)
''')
b('5-dual-part-only', S, '''                yield frame, next_frame
        
        finally:
            # restore original frame range.
            if frame_range != -1:
                self._particles.set_frame_range(self._rng)
                self._tracers.set_frame_range(self._rng)
''', '''                yield frame, next_frame
            
            if frame_range != -1:
                self._tracers.set_frame_range(self._rng)
        
        finally:
            # restore original frame range.
            if frame_range != -1:
                self._particles.set_frame_range(self._rng)
''')
b('5-dual-rng-moved', S, '''        if frame_range != -1:
            self._particles.set_frame_range(frame_range)
            self._tracers.set_frame_range(frame_range)
    
        try:
            for particles, tracers''', '''        if frame_range != -1:
            self._rng = self._particles.frame_range()
            self._particles.set_frame_range(frame_range)
            self._tracers.set_frame_range(frame_range)
    
        try:
            for particles, tracers''')
# --- scene
b('5-seg-sorted', S, "            order = np.argsort(np.argsort(arr['trajid']))\n            next_arr = next_arr[np.argsort(next_arr['trajid'])[order]]\n",
  "            order = np.argsort(arr['trajid'])\n            next_arr = next_arr[np.argsort(next_arr['trajid'])[order]]\n")
b('5-seg-first-only', S, "            arr_trids = arr['trajid']\n            next_arr_trids", "            arr_trids = np.unique(arr['trajid'])\n            next_arr_trids")
b('5-seg-tn', S, "            kwds['time'] = tn\n", "            kwds['time'] = t + 1 if tn is None else t\n")
b('5-seg-fields', S, "next_arr[field]) for field in arr.dtype.fields \\\n                if field != 'time')", "next_arr[field] if field != 'velocity' else arr[field]) for field in arr.dtype.fields \\\n                if field != 'time')")
b('5-coll-single', S, "read_where(cond_string, field=keys[0])]", "read_where(cond_string, field=keys[-1])[:]]")
b('5-coll-single2', S, "            return [self._table.read_where(cond_string, field=keys[0])]", "            return [self._table.read_where(self._frame_limit or cond_string, field=keys[0])]")
b('5-coll-cond-last', S, "                conds.append(gen_query_string(key, rng))", "                conds = conds[:1] + [gen_query_string(key, rng)]")
b('5-coll-order', S, "        for k in keys:\n            ret.append(raw[k])\n", "        for k in sorted(keys):\n            ret.append(raw[k])\n")
b('5-coll-set', S, "        for k in keys:\n            ret.append(raw[k])\n", "        for k in self._keys:\n            if k in keys: ret.append(raw[k])\n")
b('5-bbox-nolimit', S, "            poses = self.collect(['pos'])[0]", "            poses = self._table.col('pos')")
b('5-byid-nolimit', S, "        if self._frame_limit != '':\n            query_string += ' & ' + self._frame_limit\n        \n        arr =", "        if self._frame_limit != '' and self._first > 0:\n            query_string += ' & ' + self._frame_limit\n        \n        arr =")
b('5-iter-limit-once', S, '''        query_string = '(trajid == trid)'
        if self._frame_limit != '':
            query_string += ' & ' + self._frame_limit
        
        for trid in self._trids:
            arr =''', '''        if not hasattr(self, '_traj_query'):
            self._traj_query = '(trajid == trid)'
            if self._frame_limit != '':
                self._traj_query += ' & ' + self._frame_limit
        query_string = self._traj_query
        
        for trid in self._trids:
            arr =''')
b('5-frame-by-time-lim', S, '''        query_string = '(time == t)'
        arr = self._table.read_where(query_string)
''', '''        query_string = '(time == t)'
        if self._frame_limit != '':
            query_string += ' | ' + self._frame_limit
        arr = self._table.read_where(query_string)
''')
b('5-range-swap-none', S, "            rng_exprs.append(\"(time < %d)\" % last)\n", "            rng_exprs = [\"(time < %d)\" % last]\n")
b('5-shape-last', S, "self._shapes.append(1 if len(shape) == 0 else shape[0])\n    \n    def trajectory_tags", "self._shapes.append(1 if len(shape) == 0 else len(shape))\n    \n    def trajectory_tags")
b('5-tags-order', S, "for name in ['trajid', 'first', 'last']])", "for name in tags.colnames])")
b('5-query-abs', S, "(key, cop1, smin, lop, key, cop2, smax)", "(key, cop1, min(smin, smax), lop, key, cop2, max(smin, smax))")
b('5-mode-a', S, "        self._file = tables.open_file(file_name)\n", "        self._file = tables.open_file(file_name, 'a')\n")
# --- trajectory
b('5-set-shared', T, "                self.__dict__[attr][selector] = new_val\n", "                self.__dict__[attr] = self.__dict__[attr].copy()\n                self.__dict__['_' + self._check_attr[-1]][selector] = new_val\n")
b('5-class-attrs', T, "        self._check_attr = [] # Attrs", "        self._check_attr = getattr(self, '_check_attr', []) # Attrs")
b('5-class-attrs2', T, "        self.__dict__[propname] = \\\n            types.MethodType(getter, self)\n", "        setattr(type(self), propname, getter)\n")
b('5-kw-default', T, "        kwds['time'] = time\n        ParticleSet", "        kwds.setdefault('time', time)\n        ParticleSet")
b('5-create-none', T, "        if init_val is not None:\n", "        if init_val is not None and len(init_val) > 0:\n")
b('5-snap-dtype', T, "dtype=trajects[0].__dict__['_' + k].dtype)) \\", "dtype=trajects[0].pos().dtype if len(v) else np.int64)) \\")
b('5-snap-zero', T, "int(frame - first_frame))\n", "int(frame - first_frame) % len(traj))\n")
b('5-snap-cache', T, "def take_snapshot(trajects, frame, schema):", "def take_snapshot(trajects, frame, schema, _ids={}):") if 0 else None
b('5-uniq-abs', T, "    srt = np.lexsort(all_rows[:,:3].T)\n", "    srt = np.argsort(np.abs(all_rows[:,:3]).sum(axis=1), kind='stable')\n")
b('5-uniq-first', T, "    uniq = np.r_[srt[:1], srt[1:][diff]]\n", "    uniq = np.r_[srt[:1], srt[:-1][diff]]\n")
b('5-tif-empty-pos', T, "frm_ixs = (frame_num - start_times[cands]).astype(np.int64)", "frm_ixs = (frame_num - start_times[cand_nums[0]]) * np.ones(len(cand_nums), dtype=np.int64)")
b('5-tif-starts', T, "    cands = (frame_num >= start_times)", "    cands = (end_frm >= start_times)")
b('5-smooth-order', T, "if len(self.time()) < order + 1: return self", "if len(self.time()) < 4: return self")
b('5-getitem-vel', T, "self._velocity[selector],\n", "self._velocity[selector] * 1.,\n") if 0 else None
# --- io
b('5-frames-strcmp', I, "            self._frame_nums.append(frame)\n\n        # Process frames in order.\n        self._frame_nums.sort()", "            self._frame_nums.append(match.group(1))\n\n        # Process frames in order.\n        self._frame_nums.sort()\n        self._frame_nums = [int(f) for f in self._frame_nums]")
b('5-pattern-start', I, "re.escape(suffix) + '$')", "re.escape(suffix))")
b('5-acc-strsort', I, "        frame_files.append((frame, fname))\n", "        frame_files.append((match.group(1), fname))\n")if 0 else None
b('5-acc-sort-name', I, "    for frame, fname in sorted(frame_files):", "    for frame, fname in sorted(frame_files, key=lambda f: f[1]):")
b('5-acc-ends', I, "traj_ends = np.r_[traj_starts[1:], table.shape[0]]", "traj_ends = np.r_[traj_starts[1:], table.shape[0] - 1]")
b('5-acc-time', I, "table[s:e,-1] + frame,", "np.arange(s, e) + frame,")
b('5-acc-accel', I, "accel= table[s:e,6:9]", "accel= table[s:e,3:6]")
b('5-cp-age', I, "in_frame = table[table[:,-1] == path_age]", "in_frame = table[table[:,-1] >= path_age]")
b('5-cp-roll', I, "(np.roll(table[:,-1], -1) == path_age + 1))[0]", "(np.roll(table[:,-1], -1) > path_age))[0]")
b('5-mat-name', I, "if (not s.startswith('__')) and", "if (not s.startswith('_')) and")
b('5-mat-vel', I, "np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.", "np.hstack((traj['uf'], traj['vf'], traj['uf']))/1000.")
b('5-ptv-prev', I, "        if not xuap: pos /= 1000.\n        t = np.ones", "        if not xuap and has_history: pos /= 1000.\n        t = np.ones")
b('5-ptv-frate', I, "(pos[cont] - frames[-1][prev_ix,:3]) * frate", "(pos[cont] - frames[-1][prev_ix,:3]) / frate")
b('5-ptv-trid', I, "            max_traj += num_new_traj\n", "") if 0 else None
b('5-ptv-numnew', I, "        max_traj += num_new_traj\n", "        max_traj = len(traj_starts)\n")
b('5-ptv-newstart', I, "            new_start = min([traj_starts[trid] for trid in cont_trids])", "            new_start = traj_starts[cont_trids[0]]")
b('5-ptv-newstart-fix', I, "            new_start = fix\n", "            new_start = fix + 1\n")
b('5-ptv-len', I, "traj_lens = fix - ending_starts + 2", "traj_lens = fix - ending_starts + 1")
b('5-ptv-minlen', I, "long_trjs = traj_lens >= traj_min_len", "long_trjs = traj_lens > traj_min_len")
b('5-ptv-delstart', I, "            del traj_starts[trid]\n", "") if 0 else None
b('5-ptv-accel', I, "            accel[:-3:-1,:] = 0.\n", "            accel[-1:] = 0.\n")
b('5-ptv-first-minlen', I, "    if traj_min_len <= 1:\n        for row in frame[ending]:", "    if traj_min_len < 1:\n        for row in frame[ending]:")
b('5-xuap-base', I, "        count_base = 1\n", "        count_base = 0\n")
b('5-xuap-args', I, "        traj = trajectories_ptvis(fname, first, last, frate, xuap=True,\n            traj_min_len=traj_min_len)", "        traj = trajectories_ptvis(fname, first, last, xuap=True,\n            traj_min_len=traj_min_len)")
b('5-hdf-last', I, "(first, None if last is None else last + 1)", "(first, last)")
b('5-hdf-iter-filter', I, "        if iter_allowed:\n            traj = filter(", "        if iter_allowed and fmt != 'hdf':\n            traj = filter(")
b('5-fmt-order', I, "    elif 'ptv_is' in fname or fname.endswith('.txt'):\n        return 'ptvis'\n    elif 'xuap' in fname:\n        return 'xuap'\n", "    elif 'xuap' in fname:\n        return 'xuap'\n    elif 'ptv_is' in fname or fname.endswith('.txt'):\n        return 'ptvis'\n")
b('5-rfd-last', I, "part_trjs = trajectories(fname, first_frame, first_frame + 2, frate, None)", "part_trjs = trajectories(fname, first_frame, first_frame + 1, frate, None)")
b('5-rfd-schema', I, "frame_num, part_trjs[0].schema())\n        \n        data", "frame_num, tracer_trjs[0].schema())\n        \n        data")
b('5-savetraj-adds', I, "            save_data[k] = v[traj.trajid()]\n", "            save_data.setdefault(k, v[traj.trajid()])\n")
b('5-savetraj-name', I, "'traj_%d' % traj.trajid())", "'traj_%d' % (traj.trajid() % 100000))")
b('5-spt-trim', I, "arr[k] = v[trim:len(traj) - trim]", "arr[k] = v[trim:-trim]")
b('5-spt-bounds', I, "arr['time'][0], arr['time'][-1])])", "traj.time()[0], traj.time()[-1])])")
b('5-spt-skip', I, "        if len(traj) - trim_len <= 0:", "        if len(traj) - trim_len <= 1:")
b('5-spt-arr', I, "        arr = np.empty(len(traj) - trim_len, dtype=dtype)\n        arr['trajid'] = traj.trajid()\n", "        arr = np.empty(len(traj) - trim_len, dtype=dtype)\n        arr['trajid'] = traj.trajid() if table.nrows else 0\n")
b('5-sfh-min', I, "min_pos = np.min(np.vstack((min_pos, frame.pos())), axis=0)", "min_pos = np.minimum(min_pos, frame.pos()[0])")
b('5-sfh-max0', I, "max_pos = np.full(3, -np.inf)", "max_pos = np.zeros(3)")
b('5-sfh-skip', I, "        if len(frame) <= 0:", "        if len(frame) <= 1:")
b('5-tt-first', I, "    if first is not None:\n        query_string += \" & (time >= %d)\" % first\n    if last", "    if first:\n        query_string += \" & (time >= %d)\" % first\n    if last")
b('5-load-adds', I, "                per_traject_adds.setdefault(k, {})\n                per_traject_adds[k][trajid]", "                per_traject_adds[k] = {}\n                per_traject_adds[k][trajid]")
b('5-load-id', I, "int(tr_file.split('.')[0][5:])", "int(re.sub(r'[^1-9]', '', tr_file))")
b('5-load-time', I, "                kwds[k] = kwds[k][in_range]", "                if len(kwds[k]) > 1: kwds[k] = kwds[k][in_range]")
# --- interpolation
b('5-cache-data', N, "        self.__data = data\n        self.__matched_data = None\n", "        if self.__matched_data is not None and data.shape != self.__data.shape:\n            self.__matched_data = None\n        self.__data = data\n")
b('5-cache-comp', N, "        if companionship is None:\n            self.__comp = None\n        else:\n", "        if companionship is not None:\n")
b('5-trim-has', N, "            self.__has_data = self.__has_data[keep]\n", "")
b('5-trim-rel', N, "            self.__rel_pos = self.__rel_pos[keep]\n", "")
b('5-trim-match', N, "            self.__rel_pos = self.__rel_pos[keep]\n        self.__matched_data = None\n", "            self.__rel_pos = self.__rel_pos[keep]\n")
b('5-sel-one', N, "interp_pts, self._neighbs + 2, distance", "interp_pts, self._neighbs + 1, distance")
b('5-sel-comp0', N, "            keep &= active_neighbs != comp[:, None]\n", "            keep &= (active_neighbs != comp[:, None]) | (comp[:, None] == 0)\n")
b('5-sel-stable', N, "dists = np.take_along_axis(dists, closest, axis=1)\n", "dists = np.sort(dists, axis=1)[:, ::-1][:, :self._neighbs]\n")
b('5-sel-tracer-dists', N, "                self.__tracers, self.__tracers, self._radius, self._neighbs)\n                \n", "                self.__tracers, self.__tracers + 1e-9, self._radius, self._neighbs)\n                \n")
b('5-idw-marker', N, "        weights[use_parts == unused_marker] = 0.\n", "        weights[use_parts >= unused_marker - 1] = 0.\n")
b('5-idw-callpar', N, "        weights = dists**-self._par\n", "        weights = dists**-(self._par if self._neighbs > 1 else 1)\n")
b('5-idw-subset', N, "            weights = self.weights(self.current_dists(), act_neighbs)\n        else:", "            weights = self.__weights = self.weights(self.current_dists(), act_neighbs)\n        else:")
b('5-jac-comp', N, "self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp)", "self.__interp_pts + np.r_[0,eps,0], self.__data)")
b('5-jac-eps2', N, "        ret = (ret - local_interp[:,:,None]) / eps\n", "        ret = (ret - local_interp[:,:,None]) / (2*eps)\n")
b('5-jac-idw-par', N, "dists**-(self._par + 2) # m x k", "dists**-(self._par + 1) # m x k")
b('5-rbf-eps', N, "    rbf = np.exp(-dists**2 * epsilon)\n", "    rbf = np.exp(-dists**2 * 1e-2)\n")
b('5-corr-bin', N, "np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]", "np.searchsorted(corrs_bins, dists[use_parts].flatten()) - 1]")
b('5-save-radius', N, "            if val is None:\n                cfg.remove_option", "            if not val:\n                cfg.remove_option")
b('5-read-method', N, "    if parser.has_option('Interpolant', 'radius'):", "    if 'num_neighbs' not in kwds and parser.has_option('Interpolant', 'radius'):")
b('5-empty-warn', N, "        if len(self.__tracers) == 0:", "        if len(self.__tracers) <= 1:")
# --- analysis
b('5-an-int', A, "descr = [('trajid', int), ('time', int)]", "descr = [('trajid', 'i2'), ('time', int)]")
b('5-an-range', A, "scene.iter_segments(frame_range):", "scene.iter_segments(scene.get_range() if frame_range == -1 else frame_range):") if 0 else None
b('5-an-last', A, "        table.append(arr)\n", "        if length > 1: table.append(arr)\n")
b('5-comp-full', A, "comp = np.full_like(companions, -1)", "comp = np.zeros_like(companions)")
b('5-an-nocomp', A, "        if frame.particles.has_property('companion'):", "        if frame.tracers.has_property('companion'):")
b('5-an-nextcomp', A, "frame.tracers.trajid(), frame.particles.companion())", "next_frame.tracers.trajid(), frame.particles.companion())")
# --- analysed scene
b('5-as-time', X, "arr = arr[np.isin(arr['time'], traj.time())]", "arr = arr[arr['time'] <= traj.time()[-1]]")
b('5-as-trunc', X, "        analysed = np.isin(traj.time(), arr['time'])\n", "        analysed = slice(0, len(arr))\n")
b('5-as-cond', X, "                if key in pkeys:\n                    pc_add", "                if key in pkeys and key not in self._keys:\n                    pc_add")
b('5-as-inp', X, "            if len(a_arr) > 0:\n                a_arr = a_arr[in_a]", "            if len(a_arr) > len(p_arr):\n                a_arr = a_arr[in_a]")
b('5-as-mode', X, 'tables.open_file(analysis_file, "r")', 'tables.open_file(analysis_file, "r+")')
# --- pairs
b('5-pp-found', P, "coord_locator = found & (frames == frame_num)", "coord_locator = (frames == frame_num)")
b('5-pp-segs', P, "trajectories_in_frame(secondary_trajects, frame_num,\n            segs=True)", "trajectories_in_frame(secondary_trajects, frame_num + 1)")
b('5-pp-abs', P, "(prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,", "np.abs(prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:]),")
b('5-pp-len', P, "pair_time[pair_trids == trid] -= int(traj.time(0))", "pair_time[pair_trids == trid] -= len(traj)")
# --- smoothing
b('5-sg-odd', M, "if window_size % 2 != 1 or window_size < 1:", "if window_size < 1:")
b('5-sg-keys', M, "'time', \n        'trajid']", "'time', \n        'trajid', 'companion']")
b('5-sg-pad', M, "lastvals = y[-1] + np.abs(y[-half_window-1:-1][::-1] - y[-1])", "lastvals = y[-1] + np.abs(y[-half_window:][::-1] - y[-1])")
b('5-sg-jerk', M, "newvel + newacc/fps + jerk/2./fps**2", "newvel + newacc/fps + jerk/6./fps**2")
b('5-sg-zero', M, "np.zeros((4, window_size))))", "np.ones((4, window_size))))")
b('5-sg-shape', M, "np.vstack((np.zeros(3), newacc + jerk/fps))[:-1]", "np.vstack((newacc + jerk/fps, np.zeros(3)))[:-1]")
