"""More mistakes: effects on arguments and files, orders, names."""
from bugs import b, T, S, I, N, A, X, P, M, G, Q, R
# --- X02: arguments changed
b('x02-pairs-sort', P, 'unique_prim = np.unique(trajids)',
  'trajids.sort()\n    unique_prim = np.unique(trajids)')
b('x02-pairs-frames', P, 'frames = np.empty_like(time_points)',
  'frames = time_points')
b('x02-pairs-ret', P, 'pair_time = np.full_like(time_points, -1)',
  'pair_time = time_points\n    pair_time[:] = -1')
b('x02-pdf-clip', G, '''        data = data[data > 0] 
''', '''        data[data <= 0] = 1e-10
''')
b('x02-pdf-sort', G, '    hist, bin_edges = np.histogram(data, bins=bins',
  '    data.sort()\n    hist, bin_edges = np.histogram(data, bins=bins')
b('x02-vec-arrows', G, '        if arrows is not None:\n            pl.quiver',
  '        if arrows is not None:\n            arrows[:,subplt] *= 1.\n            pl.quiver')
b('x02-vec-mean', G, '    u = np.zeros(vecs.shape[0])',
  '    u = np.zeros(vecs.shape[0])\n    vecs -= vecs.mean(axis=0)')
b('x02-sel-comp', N, '''        cif = companionship >= 0.  # companion in frame
''', '''        cif = companionship >= 0.  # companion in frame
        companionship[~cif] = 0
''')
b('x02-sel-tracers', N, '''    dists = np.linalg.norm(tracer_pos[None, :, :]-interp_points[:, None, :],
                           axis=2)
''', '''    interp_points -= tracer_pos.mean(axis=0)
    dists = np.linalg.norm(tracer_pos[None, :, :]-interp_points[:, None, :],
                           axis=2)
''')
b('x02-rbf-inplace', N, '    rbf = np.exp(-dists**2 * epsilon)',
  '    dists **= 2\n    rbf = np.exp(-dists * epsilon)')
b('x02-rbf-kernel', N, '    kernel = np.exp(-tracer_dists**2 * epsilon)',
  '    kernel = np.exp(np.multiply(-tracer_dists**2, epsilon, out=tracer_dists))')
b('x02-corr', N, '''    vel_avg = (weights * data[None, ...]).sum(axis=1) / \\
''', '''    data *= 1.
    vel_avg = (weights * data[None, ...]).sum(axis=1) / \\
''')
b('x02-comp-cache', N, '''            self.__comp = np.atleast_1d(companionship)
''', '''            self.__comp = np.atleast_1d(companionship)
            self.__comp[self.__comp < 0] = -1
''')
b('x02-data-nan', N, '''        self.__data = data
        self.__matched_data = None
    
    def trim_points''', '''        self.__data = data
        self.__data[np.isnan(data)] = 0.
        self.__matched_data = None
    
    def trim_points''')
b('x02-points', N, '        self.__interp_pts = np.atleast_2d(points)\n',
  '        self.__interp_pts = np.atleast_2d(points)\n'
  '        self.__interp_pts += 0.\n')
b('x02-jac', N, '        ret = np.empty((self.__interp_pts.shape[0], 3, 3))',
  '        self.__interp_pts[:,0] += eps\n'
  '        ret = np.empty((self.__interp_pts.shape[0], 3, 3))')
b('x02-generic-pop', I, '    selected = []\n    for traj in trajects:',
  '    selected = []\n    trajects.sort(key=lambda t: t.trajid())\n    for traj in trajects:')
b('x02-save-time', I, '''            if trim is None:
                arr[k] = v
''', '''            if k == 'time':
                v -= v[0]
            if trim is None:
                arr[k] = v
''')
b('x02-save-adds', I, 'save_data[k] = v[traj.trajid()]',
  'save_data[k] = v.pop(traj.trajid())')
b('x02-save-trajs', I, '''    for traj in trajects:
        if len(traj) - trim_len <= 0:
            continue
''', '''    trajects.sort(key=len)
    for traj in trajects:
        if len(traj) - trim_len <= 0:
            continue
''')
b('x02-snap-schema', T, '    copy_keys = list(kwds.keys())\n',
  "    copy_keys = list(kwds.keys())\n    schema.pop('trajid', None)\n")
b('x02-inframe', T, '    end_frm = (frame_num + 1) if segs else frame_num\n',
  '    end_frm = (frame_num + 1) if segs else frame_num\n'
  '    if segs:\n        end_times -= 1\n        end_frm -= 1\n')
b('x02-sg', M, 'for y in traj.pos().T:',
  'for y in traj.pos().T:\n            y -= y.mean()')
b('x02-rel', A, '''        rel_vel = frame.particles.velocity() - vel_interp
''', '''        rel_vel = frame.particles.velocity()
        rel_vel -= vel_interp
''')
# --- X03: files left open
b('x03-table-close', I, '''    outfile.close()
    return trajects''', '''    return trajects''')
b('x03-save-flush', I, '''        bounds_tab.append([(trid, bounds[0], bounds[1])])
    bounds_tab.cols.trajid.create_index()
    
    outfile.flush()
    outfile.close()
''', '''        bounds_tab.append([(trid, bounds[0], bounds[1])])
    bounds_tab.cols.trajid.create_index()
    
    outfile.flush()
''')
b('x03-early', I, '''    outfile = tables.open_file(fname, mode='r')
    table = outfile.get_node('/particles')
    
    query_string''', '''    outfile = tables.open_file(fname, mode='r')
    table = outfile.get_node('/particles')
    if first is not None and table.nrows == 0:
        return []
    
    query_string''')
b('x03-save-early', I, '''    table.cols.trajid.create_index()
    table.cols.time.create_index()
    bounds_tab.cols.trajid.create_index()
''', '''    if table is None:
        return
    table.cols.trajid.create_index()
    table.cols.time.create_index()
    bounds_tab.cols.trajid.create_index()
''')
b('x03-analysis', A, '''    outfile.close()''', '''''')
# --- H08: scenes
b('h08-mode', S, '''self._file = tables.open_file(file_name)''',
  '''self._file = tables.open_file(file_name, 'a')''')
b('h08-index', S, '''self._table = self._file.get_node('/particles')''',
  '''self._table = self._file.get_node('/particles')
        if not self._table.cols.time.is_indexed:
            self._table.cols.time.create_index()''')
# --- R05

b('x02-uniq', T, 'srt = np.lexsort(all_rows[:,:3].T)',
  'all_rows[:,:3] += 0.\n    srt = np.lexsort(all_rows[:,:3].T)')
b('x02-collect-sort', S, "        # No frame range or user-defined conditions:\n",
  "        keys.sort()\n")
b('x02-where-pop', S, """                conds.append(gen_query_string(key, rng))
""", """                conds.append(gen_query_string(key, rng))
            where.clear()
""")
b('x02-cols', X, """        pkeys = set(self._scene.get_particles().keys())
        if where is not None:""", """        pkeys = set(self._scene.get_particles().keys())
        keys.remove('trajid')
        if where is not None:""")
b('x02-compan', A, 'comp = np.full_like(companions, -1)',
  'comp = np.asarray(companions)\n    comp[:] = -1')
b('x02-where-del', X, """                if key in pkeys:
                    pc_add.append(cond_string)
""", """                if key in pkeys:
                    where[key] = None
                    pc_add.append(cond_string)
""")
b('x02-zip-append', I, "            save_data[k] = v[traj.trajid()]",
  "            save_data[k] = v.setdefault(traj.trajid(), None)")
b('x02-adds-update', I, """    # Save non-trajectory arrays:
""", """    per_traject_adds.clear()
""")
b('x02-traj-list', I, """    if len(selected) == 0:
        return np.empty((2,0,8)""", """    del trajects[:]
    if len(selected) == 0:
        return np.empty((2,0,8)""")
b('x02-time-view', I, """            sel = traj[t[0]]
""", """            sel = traj[t[0]]
            tm = traj.time()
            tm[t[0]] = 0
""")
b('x02-sg-helper', M, "for y in traj.pos().T:",
  "for y in traj.pos().T:\n            y[:] = y - 0.")
b('x02-where-alias', A, """        rel_vel = frame.particles.velocity() - vel_interp
""", """        rel_vel = np.subtract(frame.particles.velocity(), vel_interp,
            out=frame.particles.velocity())
""")
b('h08-an-mode', X, 'tables.open_file(analysis_file, "r")', 'tables.open_file(analysis_file, "r+")')
b('h08-cache', S, """            min_pos, max_pos = poses.min(axis=0), poses.max(axis=0)
""", """            min_pos, max_pos = poses.min(axis=0), poses.max(axis=0)
            self._table._v_attrs.min_pos = min_pos
            self._table._v_attrs.max_pos = max_pos
""")
b('r05-acc', I, 'in sorted(frame_files)', 'in frame_files')
b('r05-npz', I, 'in sorted(os.listdir(res_dir))', 'in os.listdir(res_dir)')
b('r05-acc-set', I, 'in sorted(frame_files)', 'in list(set(frame_files))')
b('r05-frames', I, '        self._frame_nums.sort()\n', '')
b('r05-name', I, '        frame_files.append((frame, fname))\n', '        frame_files.append((fname, frame))\n')
# --- X01: names and arguments
b('x01-name', A, 'comp = np.full_like(companions, -1)', 'comp = numpy.full_like(companions, -1)')
b('x01-attr', S, """        return self._trids
""", """        return self._trajids
""")
b('x01-arm', I, "    query_string = '", "    if first is None: lo = 0\n    query_string = '")
b('x01-np', T, 'np.lexsort', 'np.lex_sort')
b('x01-arg', I, 'trajectories_acc(fname, first, last)', 'trajectories_acc(fname, first)')
b('x01-arg2', Q, 'trajectories_in_frame(', 'trajectories_in_frame(None, ')
b('x01-import', A, 'import numpy as np', 'import numpy')
# --- R06: elements never given a value
b('r06-pairs', P, 'pair_time = np.full_like(time_points, -1)', 'pair_time = np.empty_like(time_points)')
b('r06-comp', A, 'comp = np.full_like(companions, -1)', 'comp = np.empty_like(companions)')
b('r06-u', G, 'u = np.zeros(vecs.shape[0])', 'u = np.empty(vecs.shape[0])')
# --- types of elements
b('dt-coeffs', N, 'coeffs = np.zeros(dists.shape + (data.shape[-1],))', 'coeffs = np.zeros(dists.shape + (data.shape[-1],), dtype=int)')
b('dt-weights', N, 'weights = np.zeros(dists.shape + (data.shape[-1],))', 'weights = np.zeros(dists.shape + (data.shape[-1],), dtype=np.float32)')
b('dt-jac', N, 'ret = np.empty((self.__interp_pts.shape[0], 3, 3))', 'ret = np.empty((self.__interp_pts.shape[0], 3, 3), dtype=int)')
b('dt-mins', Q, 'mins = np.empty(len(trs))', 'mins = np.empty(len(trs), dtype=np.int8)')
b('dt-traj', I, 'trajects[trid] = np.empty((trlen, frames[-1].shape[-1]))', 'trajects[trid] = np.empty((trlen, frames[-1].shape[-1]), dtype=int)')
b('dt-snap-int', T, "        dtype=trajects[0].__dict__['_' + k].dtype)) \\\n", "        dtype=int)) \\\n")
b('dt-ndists', N, 'ndists = np.zeros((interp_points.shape[0], nearest_tracers_count))', 'ndists = np.zeros((interp_points.shape[0], nearest_tracers_count), dtype=int)')
b('dt-snapid', T, "np.empty(len(trajects), dtype=np.int64)", "np.empty(len(trajects), dtype=np.int8)")
b('dt-astype', T, "(frame_num - start_times[cands]).astype(np.int64)", "(frame_num - start_times[cands]).astype(np.int8)")
b('dt-analysis', A, "('trajid', int), ('time', int)", "('trajid', np.int16), ('time', int)")
b('dt-bounds', I, "('first', int)", "('first', np.int16)", 1)
b('dt-half', I, "usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)", "usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2, dtype=np.float32)")
