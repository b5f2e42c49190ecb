"""A fourth set, written from titles and statements of the properties."""
from bugs import b, T, S, I, N, A, X, P, M, G, Q, R
# --- trajectory.py
b('4-schema-ndim', T, "self.__dict__['_' + propname].shape[1:])", "self.__dict__['_' + propname].shape[-1:])")
b('4-ext-kind', T, "schm[propname] = (prop.dtype.type, shape)", "schm[propname] = (prop.dtype.kind, shape)")
b('4-ext-f4', T, "            schm[propname] = (prop.dtype.type, shape)",
  "            kind = np.float32 if prop.ndim > 1 and propname != 'pos' else prop.dtype.type\n            schm[propname] = (kind, shape)")
b('4-len-time', T, "        return self._pos.shape[0]", "        return np.count_nonzero(~np.isnan(self._pos[:,0]))")
b('4-hasprop-dict', T, "return (propname in self._check_attr)", "return hasattr(self, propname)")
b('4-kwds-override', T, "        base_vals.update(kwds)\n", "        for k, v in kwds.items():\n            if np.size(v) > 0: base_vals[k] = v\n")
b('4-getter-mask', T, "                return self.__dict__[attr][selector]\n        \n        def setter",
  "                return np.take(self.__dict__[attr], selector, axis=0)\n        \n        def setter")
b('4-smooth-s', T, "s = (len(self.time()) * err_bound)**2", "s = len(self.time()) * err_bound**2")
b('4-smooth-time', T, "Trajectory(new_pos, new_vel, self.time(), self.trajid(),\n            accel", "Trajectory(new_pos, new_vel, self.time() - self.time()[0], self.trajid(),\n            accel")
b('4-uniq-xy', T, "diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)", "diff = (np.diff(all_rows[srt,:3], axis=0) != 0).all(axis=1)")
b('4-uniq-round', T, "srt = np.lexsort(all_rows[:,:3].T)", "srt = np.lexsort(np.round(all_rows[:,:3], 6).T)")
b('4-frame-or', T, "cands = (frame_num >= start_times) & (end_frm <= end_times)", "cands = (frame_num >= start_times) & (frame_num <= end_times)")
b('4-frame-starts-given', T, "    if start_times is None or end_times is None:", "    if start_times is None and end_times is None:")
b('4-frame-dup-next', T, "        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)", "        frm_ixs = (end_frm - start_times[cands]).astype(np.int64)")
b('4-snap-first0', T, "        first_frame = traj.time()[0]\n", "        first_frame = trajects[0].time()[0]\n")
b('4-snap-int', T, "dtype=trajects[0].__dict__['_' + k].dtype", "dtype=np.float64")
b('4-snap-searchsorted', T, "traj.__dict__[prop](int(frame - first_frame))", "traj.__dict__[prop](np.searchsorted(traj.time(), frame, side='right'))")
b('4-getitem-int', T, "np.ones(self._pos[selector].shape[:-1] + (1,))*self._id", "np.full(self._pos[selector].shape[:-1] + (1,), self._id, dtype=np.int16)")
# --- scene.py
b('4-query-prec', S, "%.17g", "%.10g", 0) if False else None
b('4-inv-bound', S, "cop1, cop2, lop = ('<','>=','|')", "cop1, cop2, lop = ('<=','>','|')")
b('4-range-first-int', S, '            rng_exprs.append("(time >= %d)" % first)', '            rng_exprs.append("(time > %d)" % (first - 1 if first > 0 else 0))')
b('4-range-none-first', S, "        if first is None:\n            t = self._table.col('time')\n            self._first = int(t.min())", "        if not first:\n            t = self._table.col('time')\n            self._first = int(t.min())")
b('4-range-last-falsy', S, "        if last is None:\n            t = self._table.col('time')\n            self._last = int(t.max()) + 1", "        if last is None or last < 0:\n            t = self._table.col('time')\n            self._last = int(t.max()) + 1")
b('4-range-clip', S, '            self._last = last\n', '            self._last = min(last, int(self._table.col(\'time\').max()))\n')
b('4-range-same', S, '        self._frame_limit = ""\n        \n', '        if frame_range == getattr(self, "_set_rng", -1): return\n        self._set_rng = frame_range\n        if frame_range is not None: self._frame_limit = ""\n        \n')
b('4-trids-range', S, "self._trids = traj_tags.col('trajid')", "self._trids = np.arange(traj_tags.col('trajid').max() + 1)")
b('4-keys-filt', S, "filt = ('trajid', 'time')", "filt = ('trajid', 'time', 'companion')")
b('4-shapes-last', S, "self._shapes.append(1 if len(shape) == 0 else shape[0])", "self._shapes.append(int(np.prod(shape[1:], initial=1)) if len(shape) > 1 else 3)")
b('4-tags-order', S, "for name in ['trajid', 'first', 'last']", "for name in sorted(tags.colnames)")
b('4-byid-norange', S, '''        arr = self._table.read_where(query_string)
        kwds = dict((field, arr[field]) for field in arr.dtype.fields \\
            if field != 'trajid')
        kwds['trajid'] = trid
        return''', '''        arr = self._table.read_where('(trajid == trid)')
        kwds = dict((field, arr[field]) for field in arr.dtype.fields \\
            if field != 'trajid')
        kwds['trajid'] = trid
        return''')
b('4-frames-skip-empty', S, "            kwds = dict((field, arr[field]) for field in arr.dtype.fields \\\n                if field != 'time')\n            kwds['time'] = t\n            yield ParticleSnapshot(**kwds)", "            if len(arr) == 0: continue\n            kwds = dict((field, arr[field]) for field in arr.dtype.fields \\\n                if field != 'time')\n            kwds['time'] = t\n            yield ParticleSnapshot(**kwds)")
b('4-cond-or', S, "query_string = '&'.join([query_string, cond])\n            \n        for t in range(self._first", "query_string = '|'.join([query_string, cond])\n            \n        for t in range(self._first")
b('4-seg-next-time', S, "            kwds['time'] = tn\n", "            kwds['time'] = t\n")
b('4-seg-skip2', S, "for arr, next_arr in pairwise(self._iter_frame_arrays()):", "frames = self._iter_frame_arrays()\n        for arr, next_arr in zip(frames, frames):")
b('4-collect-rng', S, "conds = [] if self._frame_limit == '' else [self._frame_limit]", "conds = [] if self._frame_limit == '' or where else [self._frame_limit]")
b('4-collect-order', S, "        ret = []\n        raw = self._table.read_where(cond_string)\n        for k in keys:", "        ret = []\n        raw = self._table.read_where(cond_string)\n        for k in sorted(keys):")
b('4-collect-or', S, "cond_string = ' & '.join(conds)\n        \n        # No frame", "cond_string = ' | '.join(conds)\n        \n        # No frame")
b('4-bbox-axis', S, "min_pos, max_pos = poses.min(axis=0), poses.max(axis=0)", "min_pos, max_pos = poses.min(), poses.max()")
b('4-bbox-max', S, "            max_pos = self._table._v_attrs.max_pos\n", "            max_pos = self._table._v_attrs.min_pos\n")
b('4-dual-range', S, "        self._particles = Scene(particles_path, frame_range)\n", "        self._particles = Scene(particles_path)\n")
b('4-dual-none', S, "        if frame_range != -1:\n            self._particles.set_frame_range(frame_range)\n            self._tracers.set_frame_range(frame_range)\n    \n        try:\n            for particles,", "        if frame_range not in (-1, None):\n            self._particles.set_frame_range(frame_range)\n            self._tracers.set_frame_range(frame_range)\n    \n        try:\n            for particles,")
b('4-dual-restore-one', S, "                self._particles.set_frame_range(self._rng)\n                self._tracers.set_frame_range(self._rng)\n    \n    def iter_segments", "                self._particles.set_frame_range(self._rng)\n                self._tracers.set_frame_range(self._particles.frame_range())\n    \n    def iter_segments")
b('4-dual-reuse-frame', S, "            for particles, tracers in zip(\n                self._particles.iter_frames(), self._tracers.iter_frames()):\n                frame = Frame()", "            frame = Frame()\n            for particles, tracers in zip(\n                self._particles.iter_frames(), self._tracers.iter_frames()):")
b('4-dual-swap', S, "                next_frame.tracers = tracer_frames[1]\n                next_frame.particles = part_frames[1]", "                next_frame.tracers = tracer_frames[1]\n                next_frame.particles = part_frames[0]")
b('4-dual-last', S, '        parser.getint("Scene", "last frame") + 1)\n    \n    return DualScene', '        parser.getint("Scene", "last frame"))\n    \n    return DualScene')
b('4-dual-files', S, "return DualScene(tracer_file, part_file, frate", "return DualScene(part_file, tracer_file, frate")
b('4-pair-drop', S, "    a, b = it.tee(iterable)\n    next(b, None)\n    return zip(a, b)", "    items = list(iterable)\n    return zip(items[:-2], items[1:])")
# --- io.py
b('4-pattern-digits', I, "re.escape(prefix) + r'(\\d+)'", "re.escape(prefix) + r'(\\d{1,5})'")
b('4-frames-str-sort', I, "        self._frame_nums.sort()\n", "        self._frame_nums.sort(key=str)\n")
b('4-frames-last-excl', I, "            if last is not None and frame > last: continue\n            # Note that", "            if last is not None and frame >= last: continue\n            # Note that")
b('4-acc-first', I, "        if first is not None and frame < first: continue\n        if last is not None and frame > last: continue\n        frame_files", "        if first and frame <= first: continue\n        if last is not None and frame > last: continue\n        frame_files")
b('4-acc-time', I, "table[s:e,-1] + frame,", "np.arange(e - s) + frame + 1,")
b('4-acc-cols', I, "len(trajects), accel= table[s:e,6:9]))", "len(trajects), accel= table[s:e,5:8]))")
b('4-mat-vel', I, "vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.", "vel = np.hstack((traj['uf'], traj['wf'], traj['vf']))/1000.")
b('4-mat-time', I, "        t = traj['t'].ravel()\n", "        t = np.arange(len(traj['t'])) + traj['t'][0,0]\n")
b('4-ptv-rate', I, "(pos[cont] - frames[-1][prev_ix,:3]) * frate", "(pos[cont] - frames[-1][prev_ix,:3]) / frate")
b('4-ptv-accel', I, "            accel[:-2] = (traj.velocity()[1:-1] - traj.velocity()[:-2]) * frate", "            accel[:-2] = (traj.velocity()[1:-1] - traj.velocity()[:-2]) * frate**2")
b('4-ptv-mm', I, "        if not xuap: pos /= 1000.\n        t =", "        if xuap: pos /= 1000.\n        t =")
b('4-ptv-minlen', I, "long_trjs = traj_lens >= traj_min_len", "long_trjs = traj_lens > traj_min_len")
b('4-ptv-hole', I, "            frames.append(None)\n            continue\n", "            continue\n")
b('4-ptv-xuapbase', I, "        skip = 0\n        count_base = 1", "        skip = 0\n        count_base = 0")
b('4-ptv-startix', I, "            traj_starts[trid] = fix + 1\n", "            traj_starts[trid] = fix\n")
b('4-ptv-cut', I, "new_start = min([traj_starts[trid] for trid in cont_trids])", "new_start = max([traj_starts[trid] for trid in cont_trids])")
b('4-ptv-time', I, "t = np.ones((table.shape[0], 1))*frame_num\n", "t = np.ones((table.shape[0], 1))*(fix + 1)\n")
b('4-trajs-hdf-last', I, "(first, None if last is None else last + 1)", "(first, last)")
b('4-trajs-min-default', I, "            traj_min_len = 2\n        \n        if iter", "            traj_min_len = 1\n        \n        if iter")
b('4-trajs-npz-range', I, "traj, _ = load_trajectories(fname, first, last)", "traj, _ = load_trajectories(fname)")
b('4-trajs-xuap-min', I, "            traj = trajectories_ptvis(fname, first, last, frate, xuap=True,\n            traj_min_len", "x") if False else None
b('4-infer-order', I, "    elif 'ptv_is' in fname or fname.endswith('.txt'):\n        return 'ptvis'\n    elif 'xuap' in fname:\n        return 'xuap'", "    elif 'xuap' in fname:\n        return 'xuap'\n    elif 'ptv_is' in os.path.basename(fname):\n        return 'ptvis'")
b('4-generic-next', I, "(traj.time()[1:] == frame + 1))[0]", "(traj.time()[1:] >= frame + 1))[0]")
b('4-generic-uniq', I, "        all_rows = np.concatenate(selected, axis=1)\n        return all_rows[:,mark_unique_rows(all_rows[0])]\n    else:\n        all_rows = np.vstack(selected)\n        return all_rows[mark_unique_rows(all_rows)]\n\n\ndef read", "        all_rows = np.concatenate(selected, axis=1)\n        return all_rows[:,mark_unique_rows(all_rows[1])]\n    else:\n        all_rows = np.vstack(selected)\n        return all_rows[mark_unique_rows(all_rows)]\n\n\ndef read")
b('4-cp-age', I, "(np.roll(table[:,-1], -1) == path_age + 1))[0]", "(np.roll(table[:,-1], -1) != 0))[0]")
b('4-cp-stop', I, "    while os.path.exists(fname_tmpl % cur_frame):", "    while cur_frame > 0 and os.path.exists(fname_tmpl % cur_frame):")
b('4-rfd-frame', I, "            frame_num, part_trjs[0].schema())", "            first_frame, part_trjs[0].schema())")
b('4-rfd-segs', I, "part_ixs = trajectories_in_frame(part_trjs, first_frame, segs=True)", "part_ixs = trajectories_in_frame(part_trjs, first_frame)")
b('4-save-adds', I, "save_data[k] = v[traj.trajid()]", "save_data[k] = v.get(traj.trajid(), np.zeros(len(traj)))")
b('4-save-overwrite', I, "            save_data[k] = v[traj.trajid()]\n", "            save_data['traj:' + k] = v[traj.trajid()]\n")
b('4-save-f4', I, "        save_data = dict(('traj:' + k, v) \\", "        save_data = dict(('traj:' + k, np.float32(v)) \\")
b('4-spt-trim', I, "arr[k] = v[trim:len(traj) - trim]", "arr[k] = v[:len(traj) - trim_len]")
b('4-spt-short', I, "        if len(traj) - trim_len <= 0:", "        if len(traj) - trim_len <= 1:")
b('4-spt-bounds', I, "(traj.trajid(), arr['time'][0], arr['time'][-1])", "(traj.trajid(), traj.time()[0], traj.time()[-1])")
b('4-sfh-extent', I, "    table._v_attrs.min_pos = min_pos\n", "    table._v_attrs.min_pos = np.floor(min_pos)\n")
b('4-sfh-hole', I, "                ongoing_trajects[trid][1] = frame.time()", "                ongoing_trajects[trid][1] += 1")
b('4-sfh-append', I, "outfile = tables.open_file(filename, mode='w')\n    min_pos", "outfile = tables.open_file(filename, mode='a')\n    min_pos")
b('4-tt-last', I, 'query_string += " & (time <= %d)" % last', 'query_string += " & (time < %d)" % last')
b('4-ld-id', I, "trajid = int(tr_file.split('.')[0][5:])", "trajid = len(trajects)")
b('4-ld-close', I, "                in_range[kwds['time'] > last] = False", "                in_range[kwds['time'] >= last] = False")
# --- interpolation
b('4-sel-zero', N, "    dists[dists <= 0] = np.inf\n", "    dists[dists < 1e-9] = 1e-9\n")
b('4-sel-comp0', N, "cif = companionship >= 0.", "cif = companionship > 0.")
b('4-sel-radius', N, "use_parts = dists < radius", "use_parts = dists < radius\n        use_parts[:, num_neighbs or 0:] &= True\n        use_parts |= dists == dists.min(axis=1)[:, None]")
b('4-corr-right', N, "np.digitize(dists[use_parts].flatten(), corrs_bins) - 1]", "np.digitize(dists[use_parts].flatten(), corrs_bins, right=True) - 1]")
b('4-rbf-eps', N, "rbf = np.exp(-dists**2 * epsilon)", "rbf = np.exp(-dists**2 * epsilon**2)")
b('4-inv-ignore-radius', N, "return InverseDistanceWeighter(num_neighbs, radius, param)", "return InverseDistanceWeighter(num_neighbs, param=param)")
b('4-rbf-def', N, "                param = 1e5\n", "                param = 1e-2\n")
b('4-upb', N, "            self._upb = self._radius\n", "            self._upb = self._radius * 2\n")
b('4-setpos-nodrop', N, "        self.__field_tree = cKDTree(positions)\n        self._drop_neighbours_cache()", "        self.__field_tree = cKDTree(positions)\n        if getattr(self, '_GeneralInterpolant__dists', None) is not None and len(positions) != self.__dists.shape[1]:\n            self._drop_neighbours_cache()\n        else:\n            self.__active_neighbs = None")
b('4-data-1d', N, "            if data.shape[0] == self.__tracers.shape[0]:", "            if data.shape[0] != 3:")
b('4-data-keep', N, "        self.__data = data\n        self.__matched_data = None", "        if data is not getattr(self, '_GeneralInterpolant__data', None):\n            self.__matched_data = None\n        self.__data = data")
b('4-trim-relpos', N, "            self.__rel_pos = self.__rel_pos[keep]\n", "            self.__rel_pos = self.__rel_pos[:keep.sum()]\n")
b('4-trim-comp', N, "            self.__comp = self.__comp[keep]\n        if self", "            self.__comp = self.__comp[:keep.sum()]\n        if self")
b('4-selk', N, "interp_pts, self._neighbs + 2,", "interp_pts, self._neighbs + (comp is not None),")
b('4-weights-sign', N, "weights = dists**-self._par\n", "weights = 1./(dists + 1e-6)**self._par\n")
b('4-warn-len', N, "        if len(self.__tracers) == 0:", "        if len(self.__tracers) <= 1:")
b('4-jac-eps', N, "        ret = (ret - local_interp[:,:,None]) / eps", "        ret = (ret - local_interp[:,None,:]) / eps")
b('4-jac-comp', N, "            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)", "            self.__interp_pts + np.r_[0,0,eps], self.__data)")
b('4-jac-par', N, "dists**-(self._par + 2)", "dists**-(self._par + 1)")
b('4-nd-radius', N, "            None, self._neighbs, companionship)\n        \n        nearest", "            self._radius, self._neighbs, companionship)\n        \n        nearest")
b('4-off-comp', N, '''            self._radius, self._neighbs, companionship)
        
        # Here''', '''            self._radius, self._neighbs)
        
        # Here''')
b('4-subset-cache', N, '''            matched_data[has_data] = data[act_neighbs[has_data]]
        
        if''', '''            matched_data[has_data] = data[act_neighbs[has_data]]
            self._GeneralInterpolant__active_neighbs = act_neighbs
        
        if''')
b('4-cfg-par', N, "('param', self._par)]:", "('param', self._par or 1)]:")
b('4-cfg-int', N, "kwds['radius'] = parser.getfloat('Interpolant', 'radius')", "kwds['radius'] = parser.getint('Interpolant', 'radius')")
# --- sequence, analysis, an_scene, pairs, smoothing, particle, graphics, script
b('4-seq-sub-min', Q, "return max(mins.min(), self._rng[0])", "return max(mins[0], self._rng[0])")
b('4-seq-sel-both', Q, "        self._tsel = selector\n        self.__ttraj = None", "        self._tsel = selector\n        self.__ptraj = None")
b('4-seq-next', Q, "next_frame.tracers = take_snapshot(tracer_trjs, frame_num + 1,", "next_frame.tracers = take_snapshot(tracer_trjs, min(frame_num + 1, last - 1),")
b('4-seq-segs', Q, "                self.__pstarts, self.__pends, segs=True)", "                self.__pstarts, self.__pends, segs=False)")
b('4-map-last', Q, "            t = tr.time()[:-1]\n", "            t = tr.time()\n")
b('4-map-inr', Q, "in_range = (t >= subrange[0]) & (t < subrange[1])", "in_range = (t >= subrange[0]) & (t <= subrange[1])")
b('4-map-zero', Q, "res[trid] = [None]*len_in_range", "res[trid] = [0]*len_in_range")
b('4-map-rng', Q, "        for frame, next_frame in self.iter_subrange(*subrange):", "        for frame, next_frame in self:")
b('4-cfg-seq-last', Q, 'str(self._rng[1] - 1)', 'str(self._rng[1])')
b('4-cfg-smooth', Q, '"yes" if self._smooth else "no"', '"yes" if self._smooth is None else "no"')
b('4-cfg-pct', Q, 'cfg.set("Scene", "particles file", self._ptmpl.replace(\'%\', \'%%\'))', 'cfg.set("Scene", "particles file", self._trtmpl.replace(\'%\', \'%%\'))')
b('4-comp-val', A, "comp[idx[1]] = idx[0]", "comp[idx[0]] = idx[1]")
b('4-rel-sign', A, "rel_vel = frame.particles.velocity() - vel_interp", "rel_vel = vel_interp - frame.particles.velocity()")
b('4-an-next', A, "frame.tracers.velocity(), comp)", "next_frame.tracers.velocity(), comp)")
b('4-an-time', A, "arr['time'] = frame.particles.time()", "arr['time'] = next_frame.particles.time()")
b('4-an-flush', A, "        table.append(arr)\n    ", "        if length > 1: table.append(arr)\n    ")
b('4-as-analysed', X, "kwds = dict((k, v[analysed]) for k, v in traj.as_dict().items())", "kwds = dict((k, v[:len(arr)]) for k, v in traj.as_dict().items())")
b('4-as-pkeys', X, "                if key in pkeys:\n                    pc_add", "                if key not in self._keys[:1]:\n                    pc_add")
b('4-as-frange', X, "for t in range(*self._scene.get_range()):", "for t in range(self._scene.get_range()[0], self._scene.get_range()[1] - 1):")
b('4-pp-second', P, "pair_ixs = np.argmin(dists_sq, axis=1)", "pair_ixs = np.argmin(dists_sq[:, 1:], axis=1)")
b('4-pp-segs', P, "            segs=True)\n", "            segs=False)\n")
b('4-pp-z', P, "            axis=2)\n        pair_ixs", "            axis=2)\n        dists_sq[dists_sq == 0] = np.inf\n        pair_ixs")
b('4-sg-fps', M, "m_acc = m[2] * (fps**2 * 2)", "m_acc = m[2] * (fps**2)")
b('4-sg-win', M, "        if len(traj) < window_size:", "        if len(traj) <= window_size:")
b('4-sg-pad', M, "lastvals = y[-1] + np.abs(y[-half_window-1:-1][::-1] - y[-1])", "lastvals = y[-1] - np.abs(y[-half_window-1:-1][::-1] - y[-1])")
b('4-sg-jerk', M, "newvel + newacc/fps + jerk/2./fps**2", "newvel + newacc/fps + jerk/fps**2")
b('4-sg-even', M, "if window_size < order + 2:", "if window_size < order + 1:")
b('4-part-mass', R, "return self.density * self.volume()", "return self.density * self.diam**3")
b('4-g-bins', G, "np.logspace(np.log10(minv), np.log10(data.max()), num_bins + 1)", "np.logspace(np.log10(minv), np.log10(data.max()), num_bins)")
b('4-g-pos', G, "data = data[data > 0] ", "data = np.abs(data)")
b('4-g-edge', G, "generalized_histogram_disp(hist, bin_edges[:-1], log, log_density,", "generalized_histogram_disp(hist, bin_edges[1:], log, log_density,")
b('4-g-scale', G, "pl.ylim(np.r_[-common_scale, common_scale] + vecs[:,subplt].mean())", "pl.ylim(np.r_[-common_scale, common_scale] + vecs.mean())")
b('4-g-arrows', G, "u, arrows[:,subplt], ", "u, arrows[:,0], ")
