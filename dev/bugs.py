"""
Realistic mistakes, written from the properties and the code, to measure what
the checks report.  b(name, file, old, new[, which occurrence of old])
"""
BUGS = []
T, S, I, N, A, X, P, M, G, Q, R = (
    'trajectory.py', 'scene.py', 'io.py', 'interpolation.py', 'analysis.py',
    'an_scene.py', 'pairs.py', 'smoothing.py', 'graphics.py', 'sequence.py',
    'particle.py')


def b(name, *edits):
    if isinstance(edits[0], str):
        edits = (edits,)
    BUGS.append((name, edits))


# --- trajectory.py
b('getter-falsy', T, '''            if selector is None:
                return self.__dict__[attr]
            else:''', '''            if not np.any(selector):
                return self.__dict__[attr]
            else:''')
b('setter-whole', T, 'self.__dict__[attr][selector] = new_val',
  'self.__dict__[attr] = new_val')
b('schema-last', T, "self.__dict__['_' + propname].shape[1:])",
  "self.__dict__['_' + propname].shape[-1:])")
b('ext-float', T, 'schm[propname] = (prop.dtype.type, shape)',
  'schm[propname] = (float, shape)')
b('ext-ndim', T, 'prop.shape[-1] if prop.ndim > 1 else ()',
  'prop.shape[-1] if prop.ndim > 2 else ()')
b('has-prop', T, 'return (propname in self._check_attr)',
  "return hasattr(self, propname)")
b('getitem-order', T, '''            self._time[selector][...,None], 
            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id))''',
  '''            np.ones(self._pos[selector].shape[:-1] + (1,))*self._id,
            self._time[selector][...,None]))''')
b('smooth-len', T, 's = (len(self.time()) * err_bound)**2',
  's = len(self.time()) * err_bound**2')
b('smooth-short', T, 'if len(self.time()) < order + 1: return self',
  'if len(self.time()) <= order + 1: return self')
b('smooth-der', T, 'spline, der=2)).T', 'spline, der=1)).T')
b('smooth-id', T, '''Trajectory(new_pos, new_vel, self.time(), self.trajid(),
            accel=new_accel)''', '''Trajectory(new_pos, new_vel, np.arange(len(self)), self.trajid(),
            accel=new_accel)''')
b('uniq-all', T, 'axis=0).any(axis=1)', 'axis=0).all(axis=1)')
b('uniq-2', T, 'np.diff(all_rows[srt,:3], axis=0)',
  'np.diff(all_rows[srt,:2], axis=0)')
b('uniq-tol', T, 'diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)',
  'diff = (np.abs(np.diff(all_rows[srt,:3], axis=0)) > 1e-4).any(axis=1)')
b('uniq-nosort', T, '    uniq.sort()\n', '')
b('uniq-first', T, 'np.r_[srt[:1], srt[1:][diff]]', 'np.r_[srt[0:0], srt[1:][diff]]')
b('uniq-shift', T, 'np.r_[srt[:1], srt[1:][diff]]', 'np.r_[srt[:-1][diff], srt[-1:]]')
b('frame-strict', T, '(end_frm <= end_times)', '(end_frm < end_times)')
b('frame-start', T, 'cands = (frame_num >= start_times)',
  'cands = (frame_num > start_times)')
b('frame-noseg', T, 'end_frm = (frame_num + 1) if segs else frame_num',
  'end_frm = frame_num')
b('frame-nodup', T, '        cands[cands] = update_cands\n', '')
b('frame-and', T, 'if start_times is None or end_times is None:',
  'if start_times is None and end_times is None:')
b('frame-ixs', T, 'frm_ixs = (frame_num - start_times[cands]).astype(np.int64)',
  'frm_ixs = (frame_num - start_times).astype(np.int64)')
b('frame-end', T, '[(tr.time()[0], tr.time()[-1]) for tr in trajects]',
  '[(tr.time()[0], tr.time()[0] + len(tr)) for tr in trajects]')
b('snap-dtype', T, '''        dtype=trajects[0].__dict__['_' + k].dtype)) \\
''', '''        dtype=float)) \\
''')
b('snap-first', T, '        first_frame = traj.time()[0]\n',
  '        first_frame = trajects[0].time()[0]\n')
b('snap-ids', T, "kwds['trajid'][trix] = traj.trajid()", "kwds['trajid'][trix] = trix")
b('snap-empty', T, 'dict((k, np.empty((0,) + v)) for k, v in schema.items())',
  'dict((k, np.empty((0, 3))) for k, v in schema.items())')
b('snap-next', T, '(int(frame - first_frame))', '(int(frame - first_frame) - 1)')
b('traj-time-kw', T, "        kwds['time'] = time\n", "        kwds['time'] = np.arange(len(pos)) + time[0]\n")
b('asdict-copy', T, '''        return dict((propname, self.__dict__['_' + propname]) \\
            for propname in self._check_attr)
    
    def __len__''', '''        return dict((propname, self.__dict__['_' + propname]) \\
            for propname in self._check_attr if propname != 'time')
    
    def __len__''')

# --- scene.py
b('query-g', S, '%.17g', '%g', 1)
b('query-g2', S, '((%s %s %.17g) %s (%s %s %.17g))', '((%s %s %g) %s (%s %s %g))')
b('query-incl', S, "('>=','<','&')", "('>=','<=','&')")
b('query-inv', S, "('<','>=','|')", "('<','>','|')")
b('query-and', S, "('<','>=','|')", "('<','>=','&')")
b('pairwise', S, '    next(b, None)\n', '')
b('range-last', S, '''            t = self._table.col('time')
            self._last = int(t.max()) + 1
        else:''', '''            t = self._table.col('time')
            self._last = int(t.max())
        else:''')
b('range-none', S, '''            self._last = int(t.max()) + 1
            return''', '''            self._last = int(t.max())
            return''')
b('range-zero', S, '        if first is None:\n', '        if not first:\n')
b('range-keep', S, '        self._frame_limit = ""\n        \n        if frame_range is None:',
  '        if frame_range is None:')
b('range-le', S, '"(time < %d)" % last', '"(time <= %d)" % last')
b('range-gt', S, '"(time >= %d)" % first', '"(time > %d)" % first')
b('range-or', S, "self._frame_limit = ' & '.join(rng_exprs)",
  "self._frame_limit = ' | '.join(rng_exprs)")
b('byid-nolimit', S, '''        query_string = '(trajid == trid)'
        if self._frame_limit != '':
            query_string += ' & ' + self._frame_limit
        
        arr =''', '''        query_string = '(trajid == trid)'
        arr =''')
b('iter-or', S, '''            query_string += ' & ' + self._frame_limit
        
        for trid''', '''            query_string += ' | ' + self._frame_limit
        
        for trid''')
b('frames-last', S, 'for t in range(self._first, self._last):',
  'for t in range(self._first, self._last + 1):')
b('frames-step', S, 'for t in range(self._first, self._last):',
  "for t in np.unique(self._table.col('time')):")
b('frames-cond', S, "query_string = '&'.join([query_string, cond])",
  "query_string = cond")
b('bytime-id', S, '''            if field != 'time')
        kwds['time'] = t
        return ParticleSnapshot''', '''            if field != 'time')
        kwds['time'] = t - self._first
        return ParticleSnapshot''')
b('seg-or', S, 'trajids = set(arr_trids) & set(next_arr_trids)',
  'trajids = set(arr_trids)')
b('seg-mask', S, '''                for tr in next_arr_trids])
            
            if''', '''                for tr in arr_trids])
            
            if''')
b('seg-nofilt', S, '''            if len(in_next_arr) > 0:
                next_arr = next_arr[in_next_arr]
''', '')
b('seg-time', S, "kwds['time'] = tn", "kwds['time'] = t")
b('seg-arr', S, 'dict((field, next_arr[field]) for field in arr.dtype.fields',
  'dict((field, arr[field]) for field in arr.dtype.fields')
b('collect-nolimit', S, "conds = [] if self._frame_limit == '' else [self._frame_limit]",
  "conds = []")
b('collect-or', S, "cond_string = ' & '.join(conds)", "cond_string = ' | '.join(conds)")
b('collect-first', S, "field=keys[0])]", "field=self._keys[0])]")
b('collect-lastrng', S, "conds.append(gen_query_string(key, rng))",
  "conds = [gen_query_string(key, rng)]")
b('collect-col', S, "        if cond_string == '':\n", "        if where is None:\n")
b('bbox-axis', S, 'poses.min(axis=0), poses.max(axis=0)', 'poses.min(), poses.max()')
b('bbox-same', S, 'max_pos = self._table._v_attrs.max_pos',
  'max_pos = self._table._v_attrs.min_pos')
b('dual-norestore', S, '''            # restore original frame range.
            if frame_range != -1:
                self._particles.set_frame_range(self._rng)
                self._tracers.set_frame_range(self._rng)

def read''', '''            # restore original frame range.
            if frame_range != -1:
                self._particles.set_frame_range(self._rng)

def read''')
b('dual-restore-none', S, '''            if frame_range != -1:
                self._particles.set_frame_range(self._rng)
                self._tracers.set_frame_range(self._rng)
    
    def iter_seg''', '''            if frame_range != -1:
                self._particles.set_frame_range(None)
                self._tracers.set_frame_range(None)
    
    def iter_seg''')
b('dual-truthy', S, '''        if frame_range != -1:
            self._particles.set_frame_range(frame_range)
            self._tracers.set_frame_range(frame_range)
    
        try:
            for part_frames''', '''        if frame_range is not None and frame_range != -1:
            self._particles.set_frame_range(frame_range)
            self._tracers.set_frame_range(frame_range)
    
        try:
            for part_frames''')
b('dual-swap', S, '''                next_frame.tracers = tracer_frames[1]
                next_frame.particles = part_frames[1]''', '''                next_frame.tracers = tracer_frames[1]
                next_frame.particles = part_frames[0]''')
b('dual-paths', S, 'self._tracers = Scene(tracers_path, frame_range)',
  'self._tracers = Scene(tracers_path)')
b('dual-getpath', S, 'return self._paths[1]', 'return self._paths[0]')
b('dual-last', S, 'parser.getint("Scene", "last frame") + 1)\n    \n    return Dual',
  'parser.getint("Scene", "last frame"))\n    \n    return Dual')
b('dual-rate', S, 'frate = parser.getfloat("Scene", "frame rate")',
  'frate = parser.getint("Scene", "frame rate")')
b('ids-all', S, "self._trids = np.unique(self._table.col('trajid'))",
  "self._trids = self._table.col('trajid')")
b('shape-scalar', S, 'self._shapes.append(1 if len(shape) == 0 else shape[0])',
  'self._shapes.append(len(shape))')
b('keys-time', S, "filt = ('trajid', 'time')", "filt = ('trajid',)")
b('tags-order', S, "['trajid', 'first', 'last']])", "['trajid', 'last', 'first']])")

# --- io.py
b('pat-escape', I, 're.escape(prefix) +', 'prefix +')
b('pat-end', I, "re.escape(suffix) + '$')", "re.escape(suffix))")
b('pat-digit', I, r"r'(\d+)'", r"r'(\d)'")
b('fi-last', I, '''            if last is not None and frame > last: continue
            # Note''', '''            if last is not None and frame >= last: continue
            # Note''')
b('fi-falsy', I, '''            if first is not None and frame < first: continue
            if last is not None and frame > last: continue
            # Note''', '''            if first is not None and frame < first: continue
            if last and frame > last: continue
            # Note''')
b('fi-nosort', I, '        self._frame_nums.sort()\n', '')
b('fi-cols', I, 'usecols=range(num_cols)', 'usecols=range(len(fmt.names))')
b('fi-at', I, '''        self._read_frame = lambda fix: np.atleast_1d(
            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip,
            usecols=range(num_cols), converters={0: link, 1: link}))''',
  '''        self._read_frame = lambda fix: (
            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip,
            usecols=range(num_cols), converters={0: link, 1: link}))''')
b('fi-skip', I, 'skiprows=skip,', 'skiprows=1,')
b('fi-num', I, 'return self._frame_nums[curframenum], frame',
  'return curframenum, frame')
b('sf-empty', I, '''            if re.match(r'^\\s*$', line):
                break''', '''            if re.match(r'^\\s*$', line):
                if len(lines) == 0: continue
                break''')
b('sf-end', I, '        if at_end:\n', '        if len(lines) == 0:\n')
b('cp-age', I, 'path_age = frame - cur_frame', 'path_age = cur_frame - frame')
b('cp-next', I, '(np.roll(table[:,-1], -1) == path_age + 1))[0]',
  '(np.roll(table[:,-1], -1) > path_age))[0]')
b('cp-roll', I, 'np.roll(table[:,-1], -1)', 'np.roll(table[:,-1], 1)')
b('cp-uniq', I, '''        all_rows = np.vstack(selected)
        return all_rows[mark_unique_rows(all_rows)]

def trajectories_mat''', '''        return np.vstack(selected)

def trajectories_mat''')
b('cp-exp', I, '''    cur_frame = frame
    fname_tmpl = os.path.expanduser(fname_tmpl)
''', '''    cur_frame = frame
''')
b('mat-mm', I, "traj['zf']))/1000.", "traj['zf']))")
b('mat-acc', I, "accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.",
  "accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.**2")
b('mat-key', I, "(not s == 'directory')][0]", "(not s == 'directory')][-1]")
b('mat-squeeze', I, "t = traj['t'].squeeze()", "t = traj['t'][0]")
b('acc-end', I, 'np.r_[traj_starts[1:], table.shape[0]]',
  'np.r_[traj_starts[1:], table.shape[0] - 1]')
b('acc-id', I, '''        for s, e in zip(traj_starts, traj_ends):
            trajects.append(Trajectory(
                table[s:e,0:3], table[s:e,3:6], table[s:e,-1] + frame,
                len(trajects), accel= table[s:e,6:9]))''',
  '''        for trid, (s, e) in enumerate(zip(traj_starts, traj_ends)):
            trajects.append(Trajectory(
                table[s:e,0:3], table[s:e,3:6], table[s:e,-1] + frame,
                trid, accel= table[s:e,6:9]))''')
b('acc-time', I, 'table[s:e,-1] + frame,', 'table[s:e,-1],')
b('acc-names', I, 'for frame, fname in sorted(frame_files):',
  'for frame, fname in sorted(frame_files, key=lambda f: f[1]):')
b('acc-list', I, 'for frame, fname in sorted(frame_files):',
  'for frame, fname in frame_files:')
b('acc-cols', I, 'usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)',
  'usecols=(0,1,2,3,4,5,6,7,8,33))')
b('pv-mm', I, '''        pos = table['pos']
        if not xuap: pos /= 1000.''', '''        pos = table['pos']
        if not xuap: pos /= 100.''')
b('pv-xuap-mm', I, "        if not xuap: pos /= 1000.\n", "        pos /= 1000.\n")
b('pv-minlen', I, 'long_trjs = traj_lens >= traj_min_len',
  'long_trjs = traj_lens > traj_min_len')
b('pv-len', I, 'traj_lens = fix - ending_starts + 2',
  'traj_lens = fix - ending_starts + 1')
b('pv-vel', I, '''                (pos[cont] - frames[-1][prev_ix,:3]) * frate''',
  '''                (pos[cont] - frames[-1][prev_ix,:3]) / frate''')
b('pv-velrow', I, 'frames[-1][prev_ix,3:6] = ', 'frames[-1][cont,3:6] = ')
b('pv-accel', I, '(traj.velocity()[1:-1] - traj.velocity()[:-2]) * frate',
  '(traj.velocity()[1:-1] - traj.velocity()[:-2])')
b('pv-accel2', I, 'accel[:-3:-1,:] = 0.', 'accel[:-2:-1,:] = 0.')
b('pv-base', I, "cont = table['prev'] - count_base > -1",
  "cont = table['prev'] > -1")
b('pv-start', I, 'traj_starts[trid] = fix + 1', 'traj_starts[trid] = fix')
b('pv-max', I, '        max_traj += num_new_traj\n', '        max_traj = num_new_traj\n')
b('pv-newstart', I, 'new_start = min([traj_starts[trid] for trid in cont_trids])',
  'new_start = max([traj_starts[trid] for trid in cont_trids])')
b('pv-bufstart', I, '        frame_buffer_start = new_start\n', '        frame_buffer_start += new_start\n')
b('pv-slice', I, 'frames = frames[new_start - frame_buffer_start : ]',
  'frames = frames[new_start : ]')
b('pv-first', I, '''    if traj_min_len <= 1:
        for row''', '''    if traj_min_len <= 2:
        for row''')
b('pv-first-all', I, 'for row in frame[ending]:', 'for row in frame:')
b('pv-del', I, '            del traj_starts[trid]\n', '')
b('pv-frame-ix', I, "t = np.ones((table.shape[0], 1))*frame_num",
  "t = np.ones((table.shape[0], 1))*(fix + 1)")
b('pv-time-first', I, 'np.ones((max_traj, 1))*frame_num,', 'np.ones((max_traj, 1)),')
b('pv-defmin', I, '''        count_base = 0
        def_tr_len = 2''', '''        count_base = 0
        def_tr_len = 3''')
b('tr-npz', I, 'traj, _ = load_trajectories(fname, first, last)',
  'traj, _ = load_trajectories(fname)')
b('tr-xuap', I, '''        traj = trajectories_ptvis(fname, first, last, frate, xuap=True,
            traj_min_len=traj_min_len)''', '''        traj = trajectories_ptvis(fname, first, last, xuap=True,
            traj_min_len=traj_min_len)''')
b('tr-hdf', I, 'None if last is None else last + 1', 'last')
b('tr-hdf0', I, 'None if last is None else last + 1', 'last + 1 if last else None')
b('tr-empty', I, 'it = (t for t in scene.iter_trajectories() if len(t) > 0)',
  'it = (t for t in scene.iter_trajectories())')
b('tr-min', I, 'traj = [tr for tr in traj if len(tr) >= traj_min_len]',
  'traj = [tr for tr in traj if len(tr) > traj_min_len]')
b('tr-mindef', I, '''        if traj_min_len is None:
            traj_min_len = 2
        
        if iter_allowed''', '''        if not traj_min_len:
            traj_min_len = 2
        
        if iter_allowed''')
b('tr-lazy', I, '''        if iter_allowed:
            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
        else:
            traj = [tr''', '''        if not iter_allowed:
            traj = [tr''')
b('fmt-order', I, '''    elif 'ptv_is' in fname or fname.endswith('.txt'):
        return 'ptvis'
    elif 'xuap' in fname:
        return 'xuap'
''', '''    elif 'xuap' in fname:
        return 'xuap'
    elif 'ptv_is' in fname or fname.endswith('.txt'):
        return 'ptvis'
''')
b('fmt-h5', I, "fname.endswith('h5') or fname.endswith('hdf')",
  "fname.endswith('h5')")
b('cg-seg', I, '(traj.time()[1:] == frame + 1))[0]', '(traj.time()[1:] > frame))[0]')
b('cg-sel', I, 'sel = traj[t : t + 2].reshape(2, 1, -1)',
  'sel = traj[t : t + 2].reshape(1, 2, -1)')
b('cg-empty', I, 'np.empty((2,0,8) if path_seg is True else (0,8))',
  'np.empty((0,8))')
b('cg-last', I, 'sel = traj[t[0]]', 'sel = traj[t[0] - 1]')
b('rf-range', I, '''    tracer_trjs = trajectories(fname, first_frame, first_frame + 2, 
        frate, None)''', '''    tracer_trjs = trajectories(fname, first_frame, first_frame + 1, 
        frate, None)''')
b('rf-noseg', I, 'part_ixs = trajectories_in_frame(part_trjs, first_frame, segs=True)',
  'part_ixs = trajectories_in_frame(part_trjs, first_frame)')
b('rf-ixs', I, 'take_snapshot([part_trjs[t] for t in part_ixs]',
  'take_snapshot([part_trjs[t] for t in tracer_ixs]')
b('rf-ret', I, 'return particle, frate, data[0], data[1]',
  'return particle, frate, data[1], data[0]')
b('sv-adds', I, 'save_data[k] = v[traj.trajid()]', "save_data['traj:' + k] = v[traj.trajid()]")
b('sv-name', I, "'traj_%d' % traj.trajid()", "'traj_%d' % len(save_data)")
b('sv-free', I, 'np.save(os.path.join(output_dir, k), v)', 'np.save(k, v)')
b('st-trim', I, 'arr[k] = v[trim:len(traj) - trim]', 'arr[k] = v[trim:-trim]')
b('st-trim2', I, 'trim_len = 0 if trim is None else trim * 2',
  'trim_len = 0 if trim is None else trim')
b('st-skip', I, 'if len(traj) - trim_len <= 0:', 'if len(traj) - trim_len < 0:')
b('st-bounds', I, "(traj.trajid(), arr['time'][0], arr['time'][-1])])",
  "(traj.trajid(), traj.time()[0], traj.time()[-1])])")
b('st-break', I, '''        if len(traj) - trim_len <= 0:
            continue''', '''        if len(traj) - trim_len <= 0:
            break''')
b('st-index', I, '''    table.cols.time.create_index()
    bounds_tab.cols''', '''    bounds_tab.cols''')
b('st-flush', I, '''    bounds_tab.cols.trajid.create_index()
    
    outfile.flush()
    outfile.close()

def save_frames''', '''    bounds_tab.cols.trajid.create_index()
    outfile.flush()

def save_frames''')
b('st-perloop', I, '''        table.append(arr)
        bounds_tab.append([''', '''    table.append(arr)
    if True:
        bounds_tab.append([''')
b('sf-min', I, 'min_pos = np.min(np.vstack((min_pos, frame.pos())), axis=0)',
  'min_pos = np.min(frame.pos(), axis=0)')
b('sf-max', I, 'max_pos = np.full(3, -np.inf)', 'max_pos = np.zeros(3)')
b('sf-bound', I, 'ongoing_trajects[trid][1] = frame.time()',
  'ongoing_trajects[trid][1] += 1')
b('sf-boundw', I, 'bounds_tab.append([(trid, bounds[0], bounds[1])])',
  'bounds_tab.append([(trid, bounds[1], bounds[0])])')
b('sf-skip', I, '''        if len(frame) <= 0:
            continue''', '''        if len(frame) <= 1:
            continue''')
b('sf-attr', I, '    table._v_attrs.max_pos = max_pos\n', '')
b('tt-first', I, '" & (time >= %d)" % first', '" & (time > %d)" % first')
b('tt-last', I, '" & (time <= %d)" % last', '" & (time < %d)" % last')
b('tt-falsy', I, '''    if last is not None:
        query_string += " & (time <=''', '''    if last:
        query_string += " & (time <=''')
b('tt-close', I, '''    outfile.close()
    return trajects

def load''', '''    return trajects

def load''')
b('ld-ext', I, "if not tr_file.endswith('.npz'): continue", "if tr_file.endswith('.npy'): continue")
b('ld-id', I, "int(tr_file.split('.')[0][5:])", "int(tr_file.split('.')[0][-1])")
b('ld-key', I, 'kwds[k[5:]] = data[k]', "kwds[k.strip('traj:')] = data[k]")
b('ld-adds', I, '''                per_traject_adds.setdefault(k, {})
                per_traject_adds[k][trajid] = data[k]''', '''                per_traject_adds[k] = {trajid: data[k]}''')
b('ld-ge', I, "in_range[kwds['time'] > last] = False", "in_range[kwds['time'] >= last] = False")
b('ld-lt', I, "in_range[kwds['time'] < first] = False", "in_range[kwds['time'] <= first] = False")
b('ld-keep', I, '            if in_range.sum() < 1:\n', '            if in_range.sum() <= 1:\n')
b('ld-nomask', I, '''            for k in kwds.keys():
                kwds[k] = kwds[k][in_range]''', '''            for k in ('pos', 'velocity', 'time'):
                kwds[k] = kwds[k][in_range]''')
b('ld-and', I, 'if (first is not None) or (last is not None):',
  'if (first is not None) and (last is not None):')
b('ld-sort', I, "for tr_file in sorted(os.listdir(res_dir)):", "for tr_file in os.listdir(res_dir):")
b('pc-dens', 'particle.py', 'return self.density * self.volume()', 'return self.density * self.diam**3')
b('pc-vol', 'particle.py', '/ 6.', '/ 3.')
b('ptv-list', I, '''        for trid in ending_trids:
            traj = trajects[trid]''', '''        for trid in sorted(trajects.keys(), reverse=True):
            traj = trajects[trid]''')
b('traj-dup', I, "traj_locator = past_frame[:,-1] == trid", "traj_locator = past_frame[:,-1] >= trid")

# --- interpolation.py
b('sel-lt', N, 'dists[dists <= 0] = np.inf', 'dists[dists <= 1e-6] = np.inf')
b('sel-comp0', N, 'cif = companionship >= 0.', 'cif = companionship > 0.')
b('sel-norm', N, '''    dists = np.linalg.norm(tracer_pos[None, :, :]-interp_points[:, None, :],
                           axis=2)

    # Only''', '''    dists = np.sum((tracer_pos[None, :, :]-interp_points[:, None, :])**2,
                   axis=2)

    # Only''')
b('sel-radius', N, 'use_parts = dists < radius', 'use_parts = dists < radius**2')
b('sel-both', N, '''    else:
        use_parts = dists < radius

    dists[''', '''    else:
        use_parts = dists < radius
        if num_neighbs is not None:
            use_parts[:, num_neighbs:] = False

    dists[''')
b('sel-inf', N, '        use_parts[np.isinf(dists)] = False\n', '')
b('sel-num', N, 'dist_sort[:, :num_neighbs].flatten()', 'dist_sort[:, 1:num_neighbs + 1].flatten()')
b('sel-min', N, 'eff_num_neighbs = min(num_neighbs, tracer_pos.shape[0])',
  'eff_num_neighbs = num_neighbs')
b('sel-row', N, '''np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs)''',
  '''np.tile(np.arange(interp_points.shape[0]), eff_num_neighbs)''')
b('sel-zero', N, '    dists[np.isinf(dists)] = 0.\n    return dists', '    return dists')
b('corr-digit', N, 'corrs_bins) - 1]', 'corrs_bins)]')
b('corr-norm', N, '''        weights.sum(axis=1)

    return vel_avg''', '''        weights.sum()

    return vel_avg''')
b('rbf-eps', N, 'rbf = np.exp(-dists**2 * epsilon)', 'rbf = np.exp(-dists**2 / epsilon)')
b('rbf-sq', N, 'kernel = np.exp(-tracer_dists**2 * epsilon)', 'kernel = np.exp(-tracer_dists * epsilon)')
b('rbf-ix', N, 'kernel[np.ix_(neighbs, neighbs)]', 'kernel[:len(neighbs), :len(neighbs)]')
b('rbf-coef', N, 'coeffs[pix, neighbs] = np.linalg.solve(K, data[neighbs])',
  'coeffs[pix, :len(neighbs)] = np.linalg.solve(K, data[neighbs])')
b('fac-order', N, 'return InverseDistanceWeighter(num_neighbs, radius, param)',
  'return InverseDistanceWeighter(num_neighbs, param, radius)')
b('def-rbf', N, '                param = 1e5\n', '                param = 1e-5\n')
b('def-rbf-n', N, '                num_neighbs = 7\n', '                num_neighbs = 4\n')
b('def-idw', N, '            num_neighbs = 4\n        if param is None: \n            param = 1',
  '            num_neighbs = 4\n        if param is None: \n            param = 2')
b('upb-zero', N, 'if self._radius is None:', 'if not self._radius or num_neighbs:')
b('scene-comp', N, 'self.set_interp_points(interp_points, companionship)',
  'self.set_interp_points(interp_points)')
b('scene-data', N, '''        if data is not None:
            self.set_data_on_current_field(data)
        
    def _drop''', '''        self.set_data_on_current_field(data)
        
    def _drop''')
b('cache-match', N, '        self.__active_neighbs = None\n        self.__matched_data = None',
  '        self.__active_neighbs = None')
b('cache-field', N, '''        self.__field_tree = cKDTree(positions)
        self._drop_neighbours_cache()''', '''        self.__field_tree = cKDTree(positions)''')
b('cache-pts', N, '''            self.__comp = np.atleast_1d(companionship)
        self._drop_neighbours_cache()''', '''            self.__comp = np.atleast_1d(companionship)
            self._drop_neighbours_cache()''')
b('cache-data', N, '''        self.__data = data
        self.__matched_data = None''', '''        self.__data = data''')
b('data-1d', N, '''            if data.shape[0] == self.__tracers.shape[0]:
                data = data[:, None]
            else:
                data = data[None, :]''', '''            data = data[None, :]''')
b('trim-which', N, '        keep = ~which\n', '        keep = which\n')
b('trim-comp', N, '''        if self.__comp is not None:
            self.__comp = self.__comp[keep]
''', '')
b('trim-has', N, '            self.__has_data = self.__has_data[keep]\n', '')
b('trim-rel', N, '            self.__rel_pos = self.__rel_pos[keep]\n', '')
b('trim-match', N, '''            self.__rel_pos = self.__rel_pos[keep]
        self.__matched_data = None''', '''            self.__rel_pos = self.__rel_pos[keep]''')
b('nb-two', N, 'interp_pts, self._neighbs + 2,', 'interp_pts, self._neighbs + 1,')
b('nb-upb', N, ', distance_upper_bound=self._upb)', ')')
b('nb-ge', N, 'keep = dists > 0.', 'keep = dists >= 0.')
b('nb-comp', N, 'keep &= active_neighbs != comp[:, None]', 'keep = active_neighbs != comp[:, None]')
b('nb-mark', N, '        active_neighbs[~keep] = self.__tracers.shape[0]\n', '')
b('nb-inf', N, '        dists[~keep] = np.inf\n', '')
b('nb-take', N, '''        active_neighbs = np.take_along_axis(active_neighbs, closest, axis=1)
''', '''        active_neighbs = active_neighbs[:, :self._neighbs]
''')
b('rel-sign', N, 'self.__rel_pos = matched_pos - self.__interp_pts[:, None, :]',
  'self.__rel_pos = self.__interp_pts[:, None, :] - matched_pos')
b('int-empty', N, 'return np.zeros((self.__interp_pts.shape[0], ret_shape))',
  'return np.zeros((self.__tracers.shape[0], ret_shape))')
b('int-subset', N, 'act_neighbs = self.__active_neighbs if subset is None else subset',
  'act_neighbs = self.__active_neighbs')
b('mi-use', N, 'np.nonzero(act_neighbs < self.__tracers.shape[0])',
  'np.nonzero(self.__active_neighbs < self.__tracers.shape[0])')
b('call-comp', N, '''                                          self._radius, self._neighbs, 
                                          companionship)''', '''                                          self._radius, self._neighbs)''')
b('call-rbf', N, 'return rbf_interp(tracer_dists, dists, use_parts, data, self._par)',
  'return rbf_interp(tracer_dists, dists, use_parts, data)')
b('jac-axis', N, 'ret[:,:,2] = self(self.__tracers, \n            self.__interp_pts + np.r_[0,0,eps]',
  'ret[:,:,2] = self(self.__tracers, \n            self.__interp_pts + np.r_[0,eps,0]')
b('jac-idx', N, 'ret[:,:,1] = self(', 'ret[:,1,:] = self(')
b('jac-eps', N, 'ret = (ret - local_interp[:,:,None]) / eps', 'ret = (ret - local_interp[:,:,None]) / (2*eps)')
b('jac-bc', N, 'ret = (ret - local_interp[:,:,None]) / eps', 'ret = (ret - local_interp[:,None,:]) / eps')
b('nd-radius', N, '''        dists, use_parts = select_neighbs(tracer_pos, interp_points, 
            None, self._neighbs, companionship)''', '''        dists, use_parts = select_neighbs(tracer_pos, interp_points, 
            self._radius, self._neighbs, companionship)''')
b('cfg-none', N, '''            if val is None:
                cfg.remove_option''', '''            if not val:
                cfg.remove_option''')
b('cfg-key', N, "('num_neighbs', self.num_neighbs())", "('num_neighbs', self.radius())")
b('cfg-nomethod', N, "        cfg.set('Interpolant', 'method', self._method)\n", '')
b('w-sign', N, 'weights = dists**-self._par', 'weights = dists**self._par')
b('w-mark', N, '        weights[use_parts == unused_marker] = 0.\n', '')
b('w-forego', N, '''        self.__weights = self.weights(self.current_dists(), 
            self.current_active_neighbs())
    
    def trim''', '''        if not hasattr(self, '_InverseDistanceWeighter__weights'):
            self.__weights = self.weights(self.current_dists(), 
                self.current_active_neighbs())
    
    def trim''')
b('w-trim', N, '        self.__weights = self.__weights[~which]\n', '')
b('w-norm', N, '/ weights.sum(axis=1)[:,None]', '/ weights.shape[1]')
b('idw-unused', N, '''        unused = tracer_pos.shape[0]
''', '''        unused = self.field_positions().shape[0]
''')
b('idw-setpts', N, '''        GeneralInterpolant.set_interp_points(self, points, companionship)
        self._forego''', '''        GeneralInterpolant.set_interp_points(self, points)
        self._forego''')
b('mi-subset-w', N, 'weights = self.weights(self.current_dists(), act_neighbs)',
  'weights = self.__weights')
b('jac-pow', N, 'der_inv_dists = dists**-(self._par + 2)', 'der_inv_dists = dists**-(self._par + 1)')
b('jac-par', N, 'jac = self._par/self.__weights.sum(', 'jac = 1./self.__weights.sum(')
b('jac-unused', N, 'der_inv_dists[use_parts == self.field_positions().shape[0]] = 0.',
  'der_inv_dists[use_parts == self._neighbs] = 0.')
b('jac-outer', N, '''np.sum(der_inv_dists[...,None,None]*rel_pos[:,:,None,:]*\\
                   vel_diffs[...,None], axis=1)''', '''np.sum(der_inv_dists[...,None,None]*rel_pos[:,:,:,None]*\\
                   vel_diffs[:,:,None,:], axis=1)''')
b('ri-float', N, "parser.getint('Interpolant', 'num_neighbs')", "parser.getfloat('Interpolant', 'num_neighbs')")
b('ri-radius', N, "kwds['radius'] = parser.getfloat('Interpolant', 'radius')",
  "kwds['radius'] = parser.getint('Interpolant', 'radius')")
b('ri-param', N, '''            kwds['param'] = parser.getfloat('Interpolant', 'param')
    
    return''', '''            kwds['param'] = parser.getint('Interpolant', 'param')
    
    return''')
b('ri-drop', N, '''    if parser.has_option('Interpolant', 'radius'):
''', '''    if not kwds and parser.has_option('Interpolant', 'radius'):
''')

# --- analysis.py
b('comp-default', A, 'comp = np.full_like(companions, -1)', 'comp = np.zeros_like(companions)')
b('comp-idx', A, 'comp[idx[1]] = idx[0]', 'comp[idx[0]] = idx[1]')
b('comp-search', A, '''    comp = np.full_like(companions, -1)
    idx = np.nonzero(trids[:,None] == companions)
    comp[idx[1]] = idx[0]
    return comp''', '''    idx = np.searchsorted(trids, companions)
    idx[idx >= len(trids)] = 0
    return np.where(trids[idx] == companions, idx, -1)''')
b('an-rel', A, 'rel_vel = frame.particles.velocity() - vel_interp',
  'rel_vel = vel_interp - frame.particles.velocity()')
b('an-next', A, 'self._interp.set_scene(frame.tracers.pos(), frame.particles.pos(),',
  'self._interp.set_scene(next_frame.tracers.pos(), frame.particles.pos(),')
b('an-comp', A, '''            frame.tracers.velocity(), comp)''', '''            frame.tracers.velocity())''')
b('an-compids', A, '''                frame.tracers.trajid(), frame.particles.companion())''',
  '''                frame.particles.trajid(), frame.particles.companion())''')
b('an-order', A, 'return [vel_interp, rel_vel]', 'return [rel_vel, vel_interp]')
b('an-range', A, 'in scene.iter_segments(frame_range):', 'in scene.iter_segments():')
b('an-time', A, "arr['time'] = frame.particles.time()", "arr['time'] = next_frame.particles.time()")
b('an-last', A, '''            for res, desc in zip(analysis, this_descr):
                arr[desc[0]] = res
        
        table.append(arr)''', '''            for res, desc in zip(analysis, this_descr):
                arr[desc[0]] = res
        
            table.append(arr)''')
b('an-path', A, 'scene.get_particles_path()', 'scene.get_tracers()')
b('an-descr', A, '''        descr.extend(analyser.descr())
''', '''        descr = descr[:2] + analyser.descr()
''')
b('an-len', A, 'length = len(frame.particles)', 'length = len(next_frame.tracers)')

# --- an_scene.py
b('as-cond', X, "query_string = '&'.join([query_string, cond])", "query_string = cond")
b('as-keys', X, 'return list(self._scene.get_particles().keys()) + self._keys',
  'return self._keys + list(self._scene.get_particles().keys())')
b('as-shapes', X, 'return self._scene.get_particles().shapes() + self._shapes',
  'return self._shapes')
b('as-div', X, '                if key in pkeys:\n', '                if key in self._keys:\n')
b('as-or', X, "an_cond = ' & '.join(an_cond_add)", "an_cond = ' | '.join(an_cond_add)")
b('as-swap', X, '''            self._scene.get_particles()._iter_frame_arrays(part_cond),
            self._iter_frame_arrays(an_cond))''', '''            self._scene.get_particles()._iter_frame_arrays(part_cond),
            self._iter_frame_arrays())''')
b('as-ids', X, 'trajids = set(p_trids) & set(a_trids)', 'trajids = set(a_trids)')
b('as-sort', X, 'return [np.concatenate(res[k], axis=0) for k in keys]',
  'return [np.concatenate(res[k], axis=0) for k in sorted(keys)]')
b('as-dictorder', X, 'return [np.concatenate(res[k], axis=0) for k in keys]',
  'return [np.concatenate(res[k], axis=0) for k in set(keys)]')
b('as-trim', X, 'dict((k, v[:-1]) for k, v in traj.as_dict().items())',
  'dict((k, v[1:]) for k, v in traj.as_dict().items())')
b('as-notrim', X, "                if field not in ['trajid', 'time']:\n".replace('                if', '            if'),
  "            if field != 'trajid':\n")
b('as-iter', X, 'for trid in self._scene.get_particles().trajectory_ids():',
  'for trid in self._scene.get_tracers().trajectory_ids():')
b('as-row', X, '''            if len(a_arr) > 0:
                a_arr = a_arr[in_a]''', '''            if len(a_arr) > len(p_arr):
                a_arr = a_arr[in_a]''')

# --- pairs.py
b('pp-time', P, 'frames[traj_coords] = traj.time(time_points[traj_coords])',
  'frames[traj_coords] = time_points[traj_coords] + traj.time(0)')
b('pp-max', P, 'np.argmin(dists_sq, axis=1)', 'np.argmin(dists_sq, axis=0)')
b('pp-order', P, 'sec_parts.trajid(pair_ixs[prim_ixs])', 'sec_parts.trajid(pair_ixs)')
b('pp-found', P, 'coord_locator = found & (frames == frame_num)', 'coord_locator = frames == frame_num')
b('pp-l1', P, '''            (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
            axis=2)''', '''            np.abs(prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:]),
            axis=2)''')
b('pp-seg', P, '''secondary_trajects, frame_num,
            segs=True)''', '''secondary_trajects, frame_num)''')
b('pp-back', P, 'pair_time[pair_trids == trid] -= int(traj.time(0))',
  'pair_time[pair_trids == trid] -= int(traj.time(-1))')
b('pp-continue', P, '''            pair_time[coord_locator] = -1
            continue''', '''            pair_time[coord_locator] = -1
            break''')
b('pp-timebase', P, "pair_time[coord_locator] = frame_num # later", "pair_time[coord_locator] = frame_num + 1 # later")
b('pp-secset', P, '        if trid not in unique_sec: continue\n', '        if trid not in trajids: continue\n')

# --- smoothing.py
b('sg-odd', M, 'if window_size % 2 != 1 or window_size < 1:', 'if window_size < 1:')
b('sg-order', M, 'if window_size < order + 2:', 'if window_size < order:')
b('sg-half', M, 'half_window = (window_size -1) // 2', 'half_window = window_size // 2 + 1')
b('sg-vel', M, 'm_vel = m[1] * fps', 'm_vel = m[1] / fps')
b('sg-acc', M, 'm_acc = m[2] * (fps**2 * 2)', 'm_acc = m[2] * fps**2')
b('sg-jerk', M, 'm_jerk = m[3] * (fps**3 * 6)', 'm_jerk = m[3] * (fps**3 * 3)')
b('sg-short', M, 'if len(traj) < window_size:', 'if len(traj) <= window_size:')
b('sg-rev', M, "newvel.append(np.convolve( m_vel[::-1], y, mode='valid'))", "newvel.append(np.convolve( m_vel, y, mode='valid'))")
b('sg-pad', M, 'lastvals = y[-1] + np.abs(y[-half_window-1:-1][::-1] - y[-1])',
  'lastvals = y[-1] + np.abs(y[-half_window:][::-1] - y[-1])')
b('sg-next', M, 'newvel + newacc/fps + jerk/2./fps**2', 'newvel + newacc/fps + jerk/fps**2')
b('sg-nextt', M, 'nextacc = np.vstack((np.zeros(3), newacc + jerk/fps))[:-1]',
  'nextacc = np.vstack((newacc + jerk/fps, np.zeros(3)))[1:]')
b('sg-copy', M, '            if k not in smoothed_keys:\n', "            if k not in smoothed_keys[:3]:\n")
b('sg-ids', M, 'Trajectory(newpos, newvel, traj.time(), traj.trajid(),', 'Trajectory(newpos, newvel, traj.time(), len(new_trajs),')
b('sg-swap', M, 'accel=newacc, vel_pp=nextvel, acc_pp = nextacc)', 'accel=newacc, vel_pp=nextacc, acc_pp = nextvel)')

# --- graphics.py
b('gr-zero', G, 'data = data[data > 0] ', 'data = data[data != 0] ')
b('gr-n', G, 'np.log10(data.max()), num_bins + 1)', 'np.log10(data.max()), num_bins)')
b('gr-dens', G, 'bins=bins, density=True)', 'bins=bins)')
b('gr-edge', G, 'bin_edges[:-1], log, log_density', 'bin_edges[1:], log, log_density')
b('gr-log', G, 'plt = pl.semilogy if log_density else pl.plot', 'plt = pl.semilogx if log_density else pl.plot')
b('gr-comp', G, 'pl.plot(indep, vecs[:,subplt], marker)', 'pl.plot(indep, vecs[:,0], marker)')
b('gr-num', G, 'pl.figure(None if fig is None else fig.number)', 'pl.figure()')

# --- sequence.py
b('sq-range', Q, 'for frame_num in range(first, last):', 'for frame_num in range(first, last + 1):')
b('sq-selp', Q, '''        self._psel = selector
        self.__ptraj = None''', '''        self._psel = selector''')
b('sq-selt', Q, '''        self._tsel = selector
        self.__ttraj = None''', '''        self._tsel = selector
        self.__ptraj = None''')
b('sq-sub', Q, 'return max(mins.min(), self._rng[0]), min(maxs.max(), self._rng[1])',
  'return max(mins.min(), self._rng[0]), min(maxs.min(), self._rng[1])')
b('sq-next', Q, 'next_frame.particles = take_snapshot(part_trjs, frame_num + 1,', 'next_frame.particles = take_snapshot(part_trjs, frame_num,')
b('sq-tstarts', Q, '''                self.__tstarts, self.__tends, segs=True)''', '''                self.__pstarts, self.__pends, segs=True)''')
b('sq-fmt', Q, 'self._rng[1], self.frate, self._trfmt, self._minlen))', 'self._rng[1], self.frate, self._pfmt, self._minlen))')
b('sq-rate', Q, '''        self.__ptraj = self._psel(trajectories(self._ptmpl, self._rng[0], 
            self._rng[1], self.frate,''', '''        self.__ptraj = self._psel(trajectories(self._ptmpl, self._rng[0], 
            self._rng[1], 1.,''')
b('sq-noseg', Q, 'self.__tstarts, self.__tends, segs=True)', 'self.__tstarts, self.__tends)')
b('sq-map-last', Q, 't = tr.time()[:-1]', 't = tr.time()')
b('sq-map-le', Q, '(t < subrange[1])', '(t <= subrange[1])')
b('sq-map-first', Q, 'first_frames[trid] = t[in_range][0]', 'first_frames[trid] = t[0]')
b('sq-map-hist', Q, 'fargs = (self, frame, next_frame, res) + args', 'fargs = (self, frame, next_frame) + args + (res,)')
b('sq-map-next', Q, 'res[k][int(frame.particles.time() - first_frames[k])] = v', 'res[k][int(next_frame.particles.time() - first_frames[k])] = v')
b('sq-map-sub', Q, 'in self.iter_subrange(*subrange):', 'in self.iter_subrange(*self._rng):')
b('sq-cfg-last', Q, '"last frame", str(self._rng[1] - 1)', '"last frame", str(self._rng[1])')
b('sq-cfg-sm', Q, '"yes" if self._smooth else "no"', 'str(self._smooth)')
b('sq-cfg-sm2', Q, '"yes" if self._smooth else "no"', '"yes" if self._smooth is not None else "no"')
b('sq-cfg-esc', Q, "self._trtmpl.replace('%', '%%')", "self._trtmpl")
b('sq-cfg-len', Q, 'str(self._minlen))', 'str(self._minlen or 2))')
b('sq-rd-smooth', Q, '''        if smooth is None:
            smooth = parser.getboolean("Scene", "apply smoothing")''', '''        if not smooth:
            smooth = parser.getboolean("Scene", "apply smoothing")''')
b('sq-rd-str', Q, 'smooth = parser.getboolean("Scene", "apply smoothing")', 'smooth = bool(parser.get("Scene", "apply smoothing"))')
b('sq-rd-len', Q, '''        if traj_min_len is None:
            traj_min_len = parser.getint(''', '''        if not traj_min_len:
            traj_min_len = parser.getint(''')
b('sq-rd-swap', Q, 'return Sequence(frange, frate, particle, part_tmpl, tracer_tmpl, smooth,', 'return Sequence(frange, frate, particle, tracer_tmpl, part_tmpl, smooth,')
b('sq-rd-last', Q, '''"last frame") + 1)
    
    # The''', '''"last frame"))
    
    # The''')
b('sq-iter', Q, 'return self.iter_subrange(*self._rng)', 'return self.iter_subrange(*self.subrange())')
b('sq-pcache', Q, '''        # Make sure the tracers cache is populated:
        self.tracer_trajectories()
''', '''        # Make sure the tracers cache is populated:
        if not hasattr(self, '_Sequence__tstarts'): self.tracer_trajectories()
''')
