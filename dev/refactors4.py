"""
A fourth set of edits that keep the behaviour.  Not read by any check.
(module, (old text,), new text) or (module, function, new definition).
"""
from refactors2 import S, T, I, IO, Q, A, AN, SM, P, G
REF4 = []


def f(name, *edits):
    REF4.append((name, edits))


# ------------------------------------------------------------ linking
f('4-ptvis-ending', (IO, ('''        ending = table['next'] - count_base == -2
        if not ending.any():
            continue
''',), '''        links = table['next'] - count_base
        ending = links == -2
        if not np.any(ending):
            continue
'''))
f('4-ptvis-frame-helper', (IO, '+', '''
def _frame_table(pos, vel, frame_num, trids):
    """Table of a frame: position, velocity, time, trajectory."""
    times = np.ones((len(pos), 1))*frame_num
    return np.hstack((pos, vel, times, trids[:,None]))
'''), (IO, ('''        t = np.ones((table.shape[0], 1))*frame_num
        
''',), ''), (IO, ('''        frame = np.hstack((pos, vel, t, traj[:,None]))
''',), '''        frame = _frame_table(pos, vel, frame_num, traj)
'''))
f('4-ptvis-starts-dict', (IO, ('''    traj_starts = {} # what is the starting frame for each trajectory.
    for trid in trids:
        traj_starts[trid] = 0
''',), '''    # what is the starting frame for each trajectory.
    traj_starts = dict((trid, 0) for trid in trids)
'''))
f('4-ptvis-starts-update', (IO, ('''        for trid in traj[~cont]:
            traj_starts[trid] = fix + 1
''',), '''        for new_trid in traj[~cont]:
            traj_starts[new_trid] = 1 + fix
'''))
f('4-ptvis-new', (IO, ('''        num_new_traj = np.sum(~cont)
        traj[~cont] = np.arange(max_traj, max_traj + num_new_traj)
        for trid in traj[~cont]:
            traj_starts[trid] = fix + 1
        max_traj += num_new_traj
''',), '''        is_new = ~cont
        num_new_traj = is_new.sum()
        next_max = max_traj + num_new_traj
        traj[is_new] = np.arange(max_traj, next_max)
        for trid in traj[is_new]:
            traj_starts[trid] = fix + 1
        max_traj = next_max
'''))
f('4-ptvis-accel', (IO, ('''            accel = np.empty_like(traj.velocity())
            accel[:-3:-1,:] = 0.
            accel[:-2] = (traj.velocity()[1:-1] - traj.velocity()[:-2]) * frate
            traj.create_property('accel', accel)
''',), '''            vel = traj.velocity()
            accel = np.zeros_like(vel)
            accel[:-2] = (vel[1:-1] - vel[:-2]) * frate
            traj.create_property('accel', accel)
'''))
f('4-ptvis-make-helper', (IO, '+', '''
def _make_trajectory(rows, frate):
    """A trajectory with forward-difference acceleration."""
    traj = Trajectory(rows[:,:3], rows[:,3:6], rows[:,6], int(rows[0,7]))
    accel = np.empty_like(traj.velocity())
    accel[:-3:-1,:] = 0.
    accel[:-2] = (traj.velocity()[1:-1] - traj.velocity()[:-2]) * frate
    traj.create_property('accel', accel)
    return traj
'''), (IO, ('''            traj = trajects[trid]
            traj = Trajectory(traj[:,:3], traj[:,3:6], traj[:,6],
                int(traj[0,7]))
            
            # Add forward-difference acceleration:
            accel = np.empty_like(traj.velocity())
            accel[:-3:-1,:] = 0.
            accel[:-2] = (traj.velocity()[1:-1] - traj.velocity()[:-2]) * frate
            traj.create_property('accel', accel)
            
''',), '''            traj = _make_trajectory(trajects[trid], frate)
            
'''))
f('4-ptvis-pop', (IO, ('''            # Get rid of the working memory.
            del trajects[trid]
            del traj_starts[trid]
''',), '''            # Get rid of the working memory.
            trajects.pop(trid)
            traj_starts.pop(trid)
'''))
f('4-ptvis-ptable', (IO, ('''        for trid, trlen in zip(ending_trids, traj_lens):
            trajects[trid] = np.empty((trlen, frames[-1].shape[-1]))
''',), '''        num_cols = frame.shape[-1]
        for trid, trlen in zip(ending_trids, traj_lens):
            trajects[trid] = np.empty((trlen, num_cols))
'''))
f('4-ptvis-scan', (IO, ('''        for scanix, past_frame in enumerate(frames):
            if past_frame is None: continue
            
            in_frame = ending_starts <= scanix + frame_buffer_start
            for trid in ending_trids[in_frame]:
                traj_rel_ix = scanix + frame_buffer_start - traj_starts[trid]
                traj_locator = past_frame[:,-1] == trid
                trajects[trid][traj_rel_ix] = past_frame[traj_locator][0]
''',), '''        for past_ix, past_frame in enumerate(frames, frame_buffer_start):
            if past_frame is None: continue
            
            in_frame = ending_starts <= past_ix
            for trid in ending_trids[in_frame]:
                locator = past_frame[:,-1] == trid
                trajects[trid][past_ix - traj_starts[trid]] = \\
                    past_frame[locator][0]
'''))
f('4-ptvis-start', (IO, ('''        if len(cont_trids) == 0:
            new_start = fix
        else:
            new_start = min([traj_starts[trid] for trid in cont_trids])
''',), '''        if len(cont_trids) > 0:
            new_start = min(traj_starts[trid] for trid in cont_trids)
        else:
            new_start = fix
'''))
f('4-ptvis-long', (IO, ('''        traj_lens = fix - ending_starts + 2
        long_trjs = traj_lens >= traj_min_len
''',), '''        traj_lens = (fix + 1) - ending_starts + 1
        long_trjs = ~(traj_lens < traj_min_len)
'''))
f('4-ptvis-first', (IO, ('''    max_traj = table.shape[0]
    trids = np.arange(max_traj)
    frame = np.hstack((pos, vel, np.ones((max_traj, 1))*frame_num,
        trids[:,None]))
    frames.append(frame)
''',), '''    max_traj = len(table)
    trids = np.arange(max_traj)
    time_col = np.full((max_traj, 1), float(frame_num))
    frame = np.hstack((pos, vel, time_col, trids[:,None]))
    frames.append(frame)
'''))
f('4-ptvis-scale', (IO, ('''        pos = table['pos']
        if not xuap: pos /= 1000.
        t =''',), '''        pos = table['pos'] if xuap else table['pos'] / 1000.
        t ='''))
f('4-ptvis-hist', (IO, ('''        has_history = (len(frames) > 0) and (frames[-1] is not None)
        if has_history:
''',), '''        has_history = not (len(frames) == 0 or frames[-1] is None)
        if has_history:
'''))
f('4-ptvis-prevvel', (IO, ('''            frames[-1][prev_ix,3:6] = \\
                (pos[cont] - frames[-1][prev_ix,:3]) * frate
''',), '''            prev_frame = frames[-1]
            step = pos[cont] - prev_frame[prev_ix,:3]
            prev_frame[prev_ix,3:6] = frate * step
'''))
# ------------------------------------------------------------ writers
f('4-table-cols', (IO, ('''        arr = np.empty(len(traj) - trim_len, dtype=dtype)
        arr['trajid'] = traj.trajid()
        
        for k, v in traj.as_dict().items():
            if trim is None:
                arr[k] = v
            else:
                arr[k] = v[trim:len(traj) - trim]
        
        table.append(arr)
        bounds_tab.append([
            (traj.trajid(), arr['time'][0], arr['time'][-1])])
''',), '''        trid = traj.trajid()
        arr = np.empty(len(traj) - trim_len, dtype=dtype)
        arr['trajid'] = trid
        
        start = 0 if trim is None else trim
        for k, v in traj.as_dict().items():
            arr[k] = v[start:len(traj) - start]
        
        table.append(arr)
        times = arr['time']
        bounds_tab.append([(trid, times[0], times[-1])])
'''))
f('4-table-keep', (IO, ('''    for traj in trajects:
        if len(traj) - trim_len <= 0:
            continue
        
        # First trajectory creates the table:
''',), '''    for traj in trajects:
        num_left = len(traj) - trim_len
        if not num_left > 0:
            continue
        
        # First trajectory creates the table:
'''))
f('4-table-dtype', (IO, ('''            fields = [('trajid', int)] + [(field,) + desc \\
                for field, desc in traj.ext_schema().items()]
            dtype = np.dtype(fields)
''',), '''            fields = [('trajid', int)]
            for field, (tp, shape) in traj.ext_schema().items():
                fields.append((field, tp, shape))
            dtype = np.dtype(fields)
'''))
f('4-frames-minmax', (IO, ('''        min_pos = np.min(np.vstack((min_pos, frame.pos())), axis=0)
        max_pos = np.max(np.vstack((max_pos, frame.pos())), axis=0)
''',), '''        pos = frame.pos()
        min_pos = np.minimum(min_pos, pos.min(axis=0))
        max_pos = np.maximum(max_pos, pos.max(axis=0))
'''))
f('4-frames-bounds', (IO, ('''        for trid in frame.trajid():
            if trid in ongoing_trajects:
                # This allows for "hole frames". Otherwise we'd just wait for
                # the trajectory to disappear then record its end in time - 1.
                ongoing_trajects[trid][1] = frame.time()
            else:
                ongoing_trajects[trid] = np.r_[frame.time(), frame.time()]
''',), '''        t = frame.time()
        for trid in frame.trajid():
            # This allows for "hole frames". Otherwise we'd just wait for
            # the trajectory to disappear then record its end in time - 1.
            if trid not in ongoing_trajects:
                ongoing_trajects[trid] = np.r_[t, t]
            else:
                ongoing_trajects[trid][1] = t
'''))
f('4-frames-flush', (IO, ('''        arr = np.empty(len(frame), dtype=dtype)
        arr['time'] = frame.time()
        
        for k, v in frame.as_dict().items():
            arr[k] = v
        table.append(arr)
''',), '''        table.append(_frame_records(frame, dtype))
'''), (IO, '+', '''
def _frame_records(frame, dtype):
    arr = np.empty(len(frame), dtype=dtype)
    arr['time'] = frame.time()
    for k, v in frame.as_dict().items():
        arr[k] = v
    return arr
'''))
# ------------------------------------------------------------ later repairs
f('4-seg-order', (S, ('''            order = np.argsort(np.argsort(arr['trajid']))
            next_arr = next_arr[np.argsort(next_arr['trajid'])[order]]
''',), '''            by_id = np.argsort(next_arr['trajid'])
            rank = np.argsort(np.argsort(arr['trajid']))
            next_arr = next_arr[by_id][rank]
'''))
f('4-an-join', (AN, ('''        analysed = np.isin(traj.time(), arr['time'])
        arr = arr[np.isin(arr['time'], traj.time())]
        kwds = dict((k, v[analysed]) for k, v in traj.as_dict().items())
''',), '''        times = traj.time()
        in_analysis = np.isin(times, arr['time'])
        kwds = {}
        for k, v in traj.as_dict().items():
            kwds[k] = v[in_analysis]
        arr = arr[np.isin(arr['time'], times)]
'''))
f('4-jac-loop', (I, ('''        ret[:,:,0] = self(self.__tracers,
            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp)
        ret[:,:,1] = self(self.__tracers, 
            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp)
        ret[:,:,2] = self(self.__tracers, 
            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
''',), '''        for axis in range(3):
            shift = np.zeros(3)
            shift[axis] = eps
            ret[:,:,axis] = self(self.__tracers, self.__interp_pts + shift,
                self.__data, self.__comp)
'''))
f('4-subrange', (Q, ('''        mins = np.empty(len(trs), dtype=np.int64)
        maxs = np.empty(len(trs), dtype=np.int64)
        
        for trn, tr in enumerate(trs):
            t = tr.time()
            mins[trn] = t.min()
            maxs[trn] = t.max()
        
        return max(mins.min(), self._rng[0]), min(maxs.max(), self._rng[1])
''',), '''        first = min(int(tr.time().min()) for tr in trs)
        last = max(int(tr.time().max()) for tr in trs)
        return max(first, self._rng[0]), min(last, self._rng[1])
'''))
