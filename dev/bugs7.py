"""A seventh corpus: several sites, histories, unusual inputs."""
from bugs import BUGS
T, S, I, N, A, Q, X, P, G, M = ('trajectory.py', 'scene.py', 'io.py', 'interpolation.py', 'analysis.py', 'sequence.py', 'an_scene.py', 'pairs.py', 'graphics.py', 'smoothing.py')


def b(name, f, old, new, *more):
    e = [(f, old, new)]
    more = list(more)
    while more:
        e.append(tuple(more[:3]))
        more = more[3:]
    BUGS.append((name, e))


# scene
b('7-seg-order-once', S, "            order = np.argsort(np.argsort(arr['trajid']))\n            next_arr = next_arr[np.argsort(next_arr['trajid'])[order]]\n", "            order = np.argsort(arr['trajid'])\n            next_arr = next_arr[np.argsort(next_arr['trajid'])[order]]\n")
b('7-seg-order-if', S, "            order = np.argsort(np.argsort(arr['trajid']))\n", "            if len(arr) != len(next_arr): continue\n            order = np.argsort(np.argsort(arr['trajid']))\n")
b('7-seg-isin', S, "            in_arr = np.array([True if tr in trajids else False \\\n                for tr in arr_trids])\n            in_next_arr", "            in_arr = np.isin(arr_trids, next_arr_trids[:len(arr_trids)])\n            in_next_arr")
b('7-rng-first-stale', S, "            self._first = int(t.min())\n            self._last = int(t.max()) + 1\n            return", "            if not hasattr(self, '_first'): self._first = int(t.min())\n            self._last = int(t.max()) + 1\n            return")
b('7-rng-lim', S, "        self._frame_limit = ' & '.join(rng_exprs)", "        self._frame_limit = ' | '.join(rng_exprs)")
b('7-rng-le', S, '"(time < %d)" % last', '"(time <= %d)" % (last - (last > first))', )
b('7-keys-shared', S, "        self._keys = []\n        self._shapes = []\n        desc", "        desc", S, "    def trajectory_tags(self):", "    _keys = []\n    _shapes = []\n    def trajectory_tags(self):")
b('7-shape-last', S, "self._shapes.append(1 if len(shape) == 0 else shape[0])", "self._shapes.append(1 if len(shape) == 0 else len(shape))")
b('7-byid-limit', S, "        arr = self._table.read_where(query_string)\n        kwds = dict((field, arr[field]) for field in arr.dtype.fields \\\n            if field != 'trajid')\n        kwds['trajid'] = trid\n        return", "        arr = self._table.read_where('(trajid == trid)')\n        kwds = dict((field, arr[field]) for field in arr.dtype.fields \\\n            if field != 'trajid')\n        kwds['trajid'] = trid\n        return")
b('7-coll-keysort', S, "            for key, rng in where.items():\n                conds.append(gen_query_string(key, rng))\n        cond_string", "            for key, rng in where.items():\n                if key in keys: conds.append(gen_query_string(key, rng))\n        cond_string")
b('7-trids-first', S, "            self._trids = traj_tags.col('trajid')", "            self._trids = traj_tags.col('trajid')[traj_tags.col('first') < traj_tags.col('last')]")
b('7-frames-t0', S, "        for t in range(self._first, self._last):\n            yield t", "        for t in range(self._first, self._last):\n            t = int(t) if t else 1\n            yield t")
# analysed scene
b('7-as-or', X, "            if len(an_cond_add) != 0:\n                an_cond = ' & '.join(an_cond_add)", "            if len(an_cond_add) != 0:\n                an_cond = an_cond_add[-1]")
b('7-as-cond-leak', X, "            pc_add = []\n            an_cond_add = []\n", "            pc_add = an_cond_add = []\n")
b('7-as-inp2', X, "                p_arr = p_arr[in_p]\n", "                p_arr = p_arr[in_p[:len(p_arr)]] if len(a_arr) else p_arr\n")
b('7-as-time', X, "        arr = arr[np.isin(arr['time'], traj.time())]\n", "        arr = arr[:analysed.sum()]\n")
b('7-as-keys-order', X, "return list(self._scene.get_particles().keys()) + self._keys", "return self._keys + list(self._scene.get_particles().keys())")
b('7-as-frame-range', X, "        for t in range(*self._scene.get_range()):\n            yield t, ", "        first, last = self._scene.get_range()\n        for t in range(first, last - 1):\n            yield t, ")
b('7-as-traj-lim', X, "        arr = self._table.read_where(query_string)\n        \n        # Leave", "        arr = self._table.read_where(query_string)\n        arr = arr[arr['time'] >= self._scene.get_range()[0]]\n        \n        # Leave")
# sequence
b('7-seq-ptraj-range', Q, "        self.__ptraj = self._psel(trajectories(self._ptmpl, self._rng[0], \n            self._rng[1], ", "        self.__ptraj = self._psel(trajectories(self._ptmpl, self._rng[0], \n            self._rng[1] - 1, ")
b('7-seq-sel-order', Q, "        self._tsel = selector\n        self.__ttraj = None", "        self._tsel = selector\n        self.__tschem = None")
b('7-seq-next-tr', Q, "            next_frame.tracers = take_snapshot(tracer_trjs, frame_num + 1,\n                self.__tschem)", "            next_frame.tracers = take_snapshot(tracer_trjs, frame_num + 1,\n                self.__schema)")
b('7-seq-ends', Q, "        start_end = [(tr.time()[0], tr.time()[-1]) for tr in self.__ttraj]\n        self.__tstarts, self.__tends", "        start_end = [(tr.time()[0], tr.time()[0] + len(tr)) for tr in self.__ttraj]\n        self.__tstarts, self.__tends")
b('7-seq-sub-sel', Q, "        self.particle_trajectories()\n        self.__schema = ", "        if self.__schema is None: self.particle_trajectories()\n        self.__schema = ", Q, "        self.__ptraj = None\n\n    def set_tracer", "        self.__ptraj = None\n        self.__schema = None\n\n    def set_tracer")
b('7-map-first', Q, "            first_frames[trid] = t[in_range][0]\n", "            first_frames[trid] = max(t[0], subrange[0] - 1)\n")
b('7-map-sub', Q, "            in_range = (t >= subrange[0]) & (t < subrange[1])\n", "            in_range = (t >= subrange[0]) & (t < self._rng[1])\n")
b('7-map-skip', Q, "            for k, v in frm_res.items():\n", "            for k, v in frm_res.items():\n                if k not in first_frames: continue\n                if res[k][0] is None and frame.particles.time() > first_frames[k]: continue\n")
# trajectory
b('7-len', T, "    def __len__(self):\n", "    def __len__(self):\n        if '_len' in self.__dict__: return self._len\n        self._len = self._pos.shape[0]\n")
b('7-snap-schema', T, "        dtype=trajects[0].__dict__['_' + k].dtype)) \\", "        dtype=trajects[0].__dict__['_' + k].dtype if len(trajects) < 2 else np.float32)) \\")
# interpolation
b('7-comp-none', N, "        if companionship is None:\n            self.__comp = None\n        else:", "        if companionship is not None:")
b('7-comp-mask', N, "            self.__comp = np.atleast_1d(companionship)", "            self.__comp = np.maximum(np.atleast_1d(companionship), 0)")
b('7-data-col', N, "            if data.shape[0] == self.__tracers.shape[0]:\n", "            if data.shape[0] == self.__interp_pts.shape[0]:\n")
b('7-tree-lazy', N, "        self.__field_tree = cKDTree(positions)\n", "        if getattr(self, '_GeneralInterpolant__field_tree', None) is None or self.__field_tree.n != len(positions):\n            self.__field_tree = cKDTree(positions)\n")
b('7-drop-active', N, "        self.__active_neighbs = None\n        self.__matched_data = None\n", "        self.__matched_data = None\n")
b('7-upb', N, "self.__tracers[None, :, :] - self.__interp_pts[:, None, :], axis=2)\n        points", "self.__tracers[None, :, :2] - self.__interp_pts[:, None, :2], axis=2)\n        points")
b('7-matched', N, "            has_data = act_neighbs < data.shape[0]\n", "            has_data = act_neighbs < data.shape[0] - 1\n")
