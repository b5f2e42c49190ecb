"""A sixth set: what someone who knows the statements only would try."""
from bugs import b, T, S, I, N, A, X, P, M, G, Q, R
# --- trajectory
b('6-len-vel', T, "        return self._pos.shape[0]", "        return max(v.shape[0] for v in self.as_dict().values())")
b('6-has-hasattr', T, "        return (propname in self._check_attr)", "        return hasattr(self, propname)")
b('6-asdict-copy-first', T, "        return dict((propname, self.__dict__['_' + propname]) \\\n            for propname in self._check_attr)", "        return dict((propname, self.__dict__['_' + propname]) \\\n            for propname in self._check_attr if self.__dict__['_' + propname].size)")
b('6-create-dup', T, "        self._check_attr.append(propname)\n", "        if not hasattr(self, propname):\n            self._check_attr.append(propname)\n")
b('6-create-keep', T, "        if init_val is not None:\n            self.__dict__['set_' + propname](init_val)", "        if init_val is not None and attr not in self.__dict__:\n            self.__dict__['set_' + propname](init_val)")
b('6-getter-true', T, "            if selector is None:\n                return self.__dict__[attr]\n", "            if selector is None or selector is True:\n                return self.__dict__[attr]\n")
b('6-getter-falsy', T, "            if selector is None:\n                return self.__dict__[attr]\n", "            if selector is None or np.size(selector) == 0:\n                return self.__dict__[attr]\n")
b('6-ext-ndim', T, "shape = prop.shape[-1] if prop.ndim > 1 else ()", "shape = prop.shape[-1] if prop.ndim == 2 and prop.shape[-1] > 1 else ()")
b('6-schema-ones', T, "        return dict((propname, self.__dict__['_' + propname].shape[1:]) \\\n            for propname in self._check_attr)", "        return dict((propname, self.__dict__['_' + propname][:1].shape[1:]) \\\n            for propname in self._check_attr if propname != 'time')")
b('6-getitem-int', T, "np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))", "np.full(self._pos[selector].shape[:-1] + (1,), self._id, dtype=np.int32)))")
b('6-smooth-short', T, "        if len(self.time()) < order + 1: return self", "        if len(self.time()) <= order + 1: return self")
b('6-inframe-start', T, "        start_end = [(tr.time()[0], tr.time()[-1]) for tr in trajects]\n        start_times, end_times", "        start_end = [(tr.time()[0], tr.time()[0] + len(tr) - 1) for tr in trajects if len(tr) > 0]\n        start_times, end_times")
b('6-snap-last', T, "        first_frame = traj.time()[0]\n", "        first_frame = traj.time()[0] if len(traj) > 1 else frame\n")
b('6-snap-dtype', T, "        dtype=trajects[0].__dict__['_' + k].dtype)) \\", "        dtype=trajects[-1].__dict__['_' + k].dtype)) \\")
b('6-uniq-round', T, "    srt = np.lexsort(all_rows[:,:3].T)\n    diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)", "    all_rows = np.around(all_rows[:,:3], 9)\n    srt = np.lexsort(all_rows[:,:3].T)\n    diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)")
# --- scene
b('6-qs-order', S, "    smin, smax, invert = range_spec\n", "    smin, smax = sorted(range_spec[:2])\n    invert = range_spec[2] if len(range_spec) > 2 else False\n")
b('6-rng-max', S, "            self._last = int(t.max()) + 1\n            return", "            self._last = int(t[-1]) + 1\n            return")
b('6-rng-first0', S, "            rng_exprs.append(\"(time >= %d)\" % first)", "            if first > 0: rng_exprs.append(\"(time >= %d)\" % first)")
b('6-rng-swap', S, "        first, last = frame_range\n", "        first, last = frame_range\n        if first is not None and last is not None and last < first:\n            first, last = last, first\n")
b('6-iter-traj-skip', S, "            kwds['trajid'] = trid\n            yield Trajectory(**kwds)", "            if len(arr) == 0: continue\n            kwds['trajid'] = trid\n            yield Trajectory(**kwds)")
b('6-iter-fr-empty', S, "        for t, arr in self._iter_frame_arrays():\n            kwds", "        for t, arr in self._iter_frame_arrays():\n            if len(arr) == 0: continue\n            kwds")
b('6-trids-tags', S, "            traj_tags = self._file.get_node('/bounds')\n            self._trids = traj_tags.col('trajid')", "            traj_tags = self._file.get_node('/bounds')\n            self._trids = traj_tags.col('trajid')[traj_tags.col('last') > traj_tags.col('first')]")
b('6-seg-next-only', S, "            trajids = set(arr_trids) & set(next_arr_trids)\n            \n            # select", "            trajids = set(arr_trids).intersection(next_arr_trids[1:] if len(next_arr_trids) > 50 else next_arr_trids)\n            \n            # select")
b('6-bbox-max', S, "            min_pos = self._table._v_attrs.min_pos\n            max_pos = self._table._v_attrs.max_pos\n", "            min_pos = self._table._v_attrs.min_pos\n            max_pos = getattr(self._table._v_attrs, 'max_pos', min_pos)\n")
b('6-bbox-coll', S, "            poses = self.collect(['pos'])[0]\n", "            poses = self._table.col('pos')\n")
b('6-coll-dup', S, "        for k in keys:\n            ret.append(raw[k])", "        for k in raw.dtype.names:\n            if k in keys: ret.append(raw[k])")
b('6-dual-swap', S, "                next_frame.tracers = tracer_frames[1]\n", "                next_frame.tracers = tracer_frames[1] if len(tracer_frames[1]) else tracer_frames[0]\n")
b('6-read-dual', S, '        parser.getint("Scene", "last frame") + 1)', '        max(parser.getint("Scene", "last frame"), parser.getint("Scene", "first frame") + 1))')
# --- io
b('6-fi-dups', I, "            self._frame_nums.append(frame)\n", "            if frame not in self._frame_nums: self._frame_nums.append(frame)\n")
b('6-fi-first', I, "            if first is not None and frame < first: continue\n            if last is not None and frame > last: continue\n            # Note", "            if first and frame < first: continue\n            if last and frame > last: continue\n            # Note")
b('6-sf-strip', I, "            if re.match(r'^\\s*$', line):\n                break", "            if re.match(r'^\\s*$', line) and len(lines) > 0:\n                break\n            if re.match(r'^\\s*$', line): continue")
b('6-cp-roll', I, "                (np.roll(table[:,-1], -1) == path_age + 1))[0]", "                (np.roll(table[:,-1], -1) > path_age))[0]")
b('6-cp-gen-first', I, "            t = np.nonzero(traj.time() == frame)[0]\n", "            t = np.nonzero(traj.time() >= frame)[0]\n")
b('6-mat-first', I, "        trajid = traj['trajid'][0,0]\n", "        trajid = traj['trajid'].max()\n")
b('6-acc-starts', I, "        traj_starts = np.nonzero(table[:,-1] == 0)[0]\n", "        traj_starts = np.nonzero(np.diff(np.r_[1, table[:,-1]]) < 0)[0]\n")
b('6-ptv-base', I, "        count_base = 1\n        def_tr_len = 2\n", "        count_base = 1\n        def_tr_len = 1\n")
b('6-ptv-end', I, "        ending = table['next'] - count_base == -2\n        if not ending.any():\n            continue", "        ending = table['next'] - count_base < 0\n        if not ending.any():\n            continue")
b('6-ptv-xu-iter', I, "        traj = trajectories_ptvis(fname, first, last, frate, xuap=True,\n            traj_min_len=traj_min_len)", "        filter_needed = False\n        traj = trajectories_ptvis(fname, first, last, frate, xuap=True,\n            traj_min_len=traj_min_len or 2)")
b('6-traj-npz-filter', I, "        if traj_min_len is None:\n            traj_min_len = 2\n        \n        if iter", "        if not traj_min_len:\n            traj_min_len = 2\n        \n        if iter")
b('6-rfd-ends', I, "    tracer_ixs = trajectories_in_frame(tracer_trjs, first_frame, segs=True)", "    tracer_ixs = trajectories_in_frame(tracer_trjs, first_frame, segs=len(tracer_trjs) > 1)")
b('6-st-adds', I, "            save_data[k] = v[traj.trajid()]\n", "            save_data[k] = v.get(traj.trajid(), ())\n")
b('6-spt-trim0', I, "            if trim is None:\n                arr[k] = v\n", "            if trim is None or len(v) == len(arr):\n                arr[k] = v\n            elif v.ndim == 1:\n                arr[k] = v[trim:-trim]\n")
b('6-spt-first', I, "            (traj.trajid(), arr['time'][0], arr['time'][-1])])", "            (traj.trajid(), traj.time()[trim_len // 2], traj.time()[-1])])")
b('6-sf-skip', I, "        if len(frame) <= 0:\n            continue\n", "        if len(frame) <= 1 and table is None:\n            continue\n")
b('6-tt-uniq', I, "    for trid in np.unique(table.col('trajid')):\n        arr = table.read_where(query_string)\n", "    for trid in np.unique(table.col('trajid')):\n        arr = table.read_where(query_string)\n        if len(arr) == 0: break\n")
b('6-lt-range', I, "            if in_range.sum() < 1:\n                continue", "            if in_range.sum() <= 1:\n                continue")
b('6-lt-id', I, "        trajid = int(tr_file.split('.')[0][5:]) # traj_*.pyz", "        trajid = len(trajects)")
# --- interpolation
b('6-sel-comp', N, "    dists[np.isinf(dists)] = 0.\n    return dists, use_parts", "    dists[~use_parts] = 0.\n    return dists, use_parts")
b('6-corr-norm', N, "        weights.sum(axis=1)\n\n    return vel_avg", "        use_parts.sum(axis=1)[:, None]\n\n    return vel_avg")
b('6-rbf-cond', N, "        neighbs = np.nonzero(use_parts[pix])[0]\n", "        neighbs = np.nonzero(use_parts[pix] & (dists[pix] > 0))[0]\n")
b('6-data-float', N, "        self.__data = data\n", "        self.__data = np.asarray(data, dtype=float)\n")
b('6-data-1d', N, "            if data.shape[0] == self.__tracers.shape[0]:\n                data = data[:, None]", "            if data.shape[0] > 3:\n                data = data[:, None]")
b('6-trim-weights', N, "        self.__weights = self.__weights[~which]\n", "        if which.any(): self.__weights = self.__weights[~which]\n")
b('6-idw-par', N, "        weights = dists**-self._par\n", "        weights = dists**-max(self._par, 1)\n")
b('6-idw-zero', N, "        weights[use_parts == unused_marker] = 0.\n        return weights", "        weights[use_parts >= unused_marker] = 0.\n        weights[np.isinf(weights)] = 0.\n        return weights")
b('6-nd-count', N, "        nearest_tracers_count = min(tracer_pos.shape[0], self._neighbs)\n", "        nearest_tracers_count = self._neighbs\n")
b('6-call-comp', N, "        dists, use_parts = select_neighbs(tracer_pos, interp_points, \n            self._radius, self._neighbs, companionship)\n        \n        # Here", "        dists, use_parts = select_neighbs(tracer_pos, interp_points, \n            self._radius, self._neighbs, companionship if np.any(companionship) else None)\n        \n        # Here")
b('6-jac-par', N, "        der_inv_dists = dists**-(self._par + 2) # m x k", "        der_inv_dists = dists**-(2*self._par + 1) # m x k")
b('6-read-nb', N, "        kwds['num_neighbs'] = parser.getint('Interpolant', 'num_neighbs')", "        kwds['num_neighbs'] = parser.getint('Interpolant', 'num_neighbs') or None")
# --- sequence, analysis, pairs, smoothing, graphics
b('6-sub-time', Q, "            mins[trn] = t.min()\n            maxs[trn] = t.max()\n", "            mins[trn] = t[0]\n            maxs[trn] = t[-2:].max()\n")
b('6-psel-same', Q, "        self._psel = selector\n        self.__ptraj = None", "        if getattr(self, '_psel', None) is not selector:\n            self.__ptraj = None\n        self._psel = selector")
b('6-tsel-name', Q, "        self._tsel = selector\n        self.__ttraj = None", "        if getattr(getattr(self, '_tsel', None), '__name__', None) != selector.__name__:\n            self.__ttraj = None\n        self._tsel = selector")
b('6-map-last', Q, "            in_range = (t >= subrange[0]) & (t < subrange[1])\n", "            in_range = (t >= subrange[0]) & (t <= subrange[1])\n")
b('6-map-args', Q, "                fargs = (self, frame, next_frame, res) + args\n", "                fargs = (self, frame, next_frame, dict(res)) + args\n")
b('6-map-arr', Q, "            res[k] = np.array(res[k])\n", "            res[k] = np.array([r for r in res[k] if r is not None])\n")
b('6-save-rate', Q, 'cfg.set("Scene", "frame rate", str(self.frate))', 'cfg.set("Scene", "frame rate", "%g" % self.frate)')
b('6-save-last', Q, 'cfg.set("Scene", "last frame", str(self._rng[1] - 1))', 'cfg.set("Scene", "last frame", str(max(self._rng[1] - 1, self._rng[0])))')
b('6-rs-smooth', Q, "        if smooth is None:\n            smooth = parser.getboolean", "        if not smooth:\n            smooth = parser.getboolean")
b('6-an-len', A, "        length = len(frame.particles)\n", "        length = len(frame.particles)\n        if len(frame.tracers) == 0: continue\n")
b('6-an-res', A, "            for res, desc in zip(analysis, this_descr):\n                arr[desc[0]] = res", "            for res, desc in zip(analysis, this_descr):\n                arr[desc[0]] = np.nan_to_num(res)")
b('6-comp-ix', A, "    comp[idx[1]] = idx[0]\n", "    comp[idx[1][idx[0] > 0]] = idx[0][idx[0] > 0]\n")
b('6-as-cond', X, "                if key in pkeys:\n                    pc_add", "                if key in pkeys and key not in self._keys:\n                    pc_add")
b('6-as-rng', X, "        for t in range(*self._scene.get_range()):\n            yield t", "        for t in range(*self._scene.get_particles().frame_range()):\n            yield t")
b('6-as-ids', X, "        for trid in self._scene.get_particles().trajectory_ids():", "        for trid in np.unique(self._table.col('trajid')):")
b('6-pp-frames', P, "        frames[traj_coords] = traj.time(time_points[traj_coords])", "        frames[traj_coords] = traj.time(0) + time_points[traj_coords]")
b('6-pp-sec', P, "        if len(sec_in_frame) == 0:\n", "        if len(sec_in_frame) <= 1:\n")
b('6-sg-win', M, "        if len(traj) < window_size:", "        if len(traj) <= window_size:")
b('6-sg-key', M, "            if k not in smoothed_keys:", "            if k not in smoothed_keys and v.ndim > 1:")
b('6-sg-fps', M, "m_vel = m[1] * fps\n", "m_vel = m[1] * int(fps)\n")
b('6-pdf-zero', G, "        data = data[data > 0] \n", "        data = np.abs(data[data != 0])\n")
b('6-plot-mean', G, "vecs[:,subplt].mean())", "np.median(vecs[:,subplt]))")
