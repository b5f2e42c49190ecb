From f18282631fdab590ea59ec1829b33bb35eb68a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:25 +0000
Subject: [PATCH 01/47] fix: take_snapshot() on a non-empty trajectory list

np.int64_ does not exist in any NumPy, and in Python 3 the key view also
picked up 'trajid', which is not a property of the source trajectories.
---
 flowtracks/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 0d1499c..9747b1c 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -300,8 +300,8 @@ def take_snapshot(trajects, frame, schema):
         dtype=trajects[0].__dict__['_' + k].dtype)) \
         for k, v in schema.items())
 
-    copy_keys = kwds.keys()
-    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64_)
+    copy_keys = list(kwds.keys())
+    kwds['trajid'] = np.empty(len(trajects), dtype=np.int64)
 
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
-- 
2.43.0


From e3e2d51c883150a7f6cc7c8c7dbedda06c88ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:46 +0000
Subject: [PATCH 02/47] fix: frame lookup in trajectories with floating-point
 time

The readers of ptv_is/xuap/acc and of HDF files made from them give time as
floats, and NumPy does not take a float as an index.
---
 flowtracks/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 9747b1c..37bda16 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -264,7 +264,7 @@ def trajectories_in_frame(trajects, frame_num,
     
     if len(cand_nums) > 0:
         # Filter candidates with overlapping particles.
-        frm_ixs = frame_num - start_times[cands]
+        frm_ixs = (frame_num - start_times[cands]).astype(np.int64)
         pos = np.array([trajects[trix].pos()[frm] \
             for trix, frm in zip(cand_nums, frm_ixs)])
         
@@ -306,7 +306,7 @@ def take_snapshot(trajects, frame, schema):
     for trix, traj in enumerate(trajects):
         first_frame = traj.time()[0]
         for prop in copy_keys:
-            kwds[prop][trix] = traj.__dict__[prop](frame - first_frame)
+            kwds[prop][trix] = traj.__dict__[prop](int(frame - first_frame))
 
         kwds['trajid'][trix] = traj.trajid()
     
-- 
2.43.0


From 643b3e391738c32a05ec4a6bc292af07f3c16729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:49 +0000
Subject: [PATCH 03/47] fix: trajectories(iter_allowed=True) used
 itertools.ifilter

It is gone in Python 3, whose filter() is lazy.
---
 flowtracks/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index e5d2183..81c3ce7 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -15,7 +15,7 @@ The rest of the content of this module is composed of readers and writers for
 the various formats. They are documented here alongside the main entry points,
 so that users may access them directly if needed.
 """
-import os, os.path, re, itertools as itr
+import os, os.path, re
 from configparser import ConfigParser
 from io import StringIO
 
@@ -514,7 +514,7 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len = 2
         
         if iter_allowed:
-            traj = itr.ifilter(lambda tr: len(tr) >= traj_min_len, traj)
+            traj = filter(lambda tr: len(tr) >= traj_min_len, traj)
         else:
             traj = [tr for tr in traj if len(tr) >= traj_min_len]
     
-- 
2.43.0


From 748c3dfae1b7b2a76c1145990c275e4a82c03b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:51 +0000
Subject: [PATCH 04/47] fix: AnalysedScene.collect(), with and without
 conditions

itertools.izip is gone in Python 3, and Scene._iter_frame_arrays() called
str.join() with two arguments when given a condition.
---
 flowtracks/an_scene.py | 4 ++--
 flowtracks/scene.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 7d198ee..8f288fa 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-import tables, itertools as it, numpy as np
+import tables, numpy as np
 from .scene import read_dual_scene, gen_query_string
 from .trajectory import Trajectory
 
@@ -108,7 +108,7 @@ class AnalysedScene(object):
         # divided conditions.
         res = dict((k, []) for k in keys)
         
-        dframe_it = it.izip(
+        dframe_it = zip(
             self._scene.get_particles()._iter_frame_arrays(part_cond),
             self._iter_frame_arrays(an_cond))
             
diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 755af63..ad35422 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -230,7 +230,7 @@ class Scene(object):
         """
         query_string = '(time == t)'
         if cond is not None:
-            query_string = '&'.join(query_string, cond)
+            query_string = '&'.join([query_string, cond])
             
         for t in range(self._first, self._last):
             yield t, self._table.read_where(query_string)
-- 
2.43.0


From 6cfecc03378de97f105b3061a9294043a57ac7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:10 +0000
Subject: [PATCH 05/47] fix: Scene.collect() with conditions but no frame range

The empty frame limit made the query string start with '&'.
---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index ad35422..90314a7 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -313,7 +313,7 @@ class Scene(object):
         a list of arrays, in the order of ``keys``.
         """
         # Compose query to PyTables engine:
-        conds = [self._frame_limit]
+        conds = [] if self._frame_limit == '' else [self._frame_limit]
         if where is not None:
             for key, rng in where.items():
                 conds.append(gen_query_string(key, rng))
-- 
2.43.0


From c2fc13c8f264d3a6947f991a353b143aa3978c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:12 +0000
Subject: [PATCH 06/47] fix: query bounds were rounded to 6 significant digits

gen_query_string() selected the wrong rows for e.g. frame number 10000003 or
a bound of 0.12345678. 17 digits represent any float exactly.
---
 flowtracks/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 90314a7..81fad7a 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -59,7 +59,7 @@ def gen_query_string(key, range_spec):
     """
     smin, smax, invert = range_spec
     cop1, cop2, lop = ('<','>=','|') if invert else ('>=','<','&')
-    cond_string = "((%s %s %g) %s (%s %s %g))" % \
+    cond_string = "((%s %s %.17g) %s (%s %s %.17g))" % \
         (key, cop1, smin, lop, key, cop2, smax)
     
     return cond_string
-- 
2.43.0


From 6837fde78e6811759499970d0a98270bad451ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:32 +0000
Subject: [PATCH 07/47] fix: DualScene iteration over a temporary frame range
 leaked it

When the caller stopped before the last frame (break, exception), both scenes
stayed limited to the temporary range.
---
 flowtracks/scene.py | 59 ++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index 81fad7a..ec2e306 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -423,17 +423,19 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for particles, tracers in zip(
-            self._particles.iter_frames(), self._tracers.iter_frames()):
-            frame = Frame()
-            frame.tracers = tracers
-            frame.particles = particles
-            yield frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for particles, tracers in zip(
+                self._particles.iter_frames(), self._tracers.iter_frames()):
+                frame = Frame()
+                frame.tracers = tracers
+                frame.particles = particles
+                yield frame
+        
+        finally:
+            # restore original frame range.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
     
     def iter_segments(self, frame_range=-1):
         """
@@ -455,22 +457,25 @@ class DualScene(object):
             self._particles.set_frame_range(frame_range)
             self._tracers.set_frame_range(frame_range)
     
-        for part_frames, tracer_frames in zip(
-            self._particles.iter_segments(), self._tracers.iter_segments()):
-            frame = Frame()
-            frame.tracers = tracer_frames[0]
-            frame.particles = part_frames[0]
-            
-            next_frame = Frame()
-            next_frame.tracers = tracer_frames[1]
-            next_frame.particles = part_frames[1]
-            
-            yield frame, next_frame
-        
-        # restore original frame range.
-        if frame_range != -1:
-            self._particles.set_frame_range(self._rng)
-            self._tracers.set_frame_range(self._rng)
+        try:
+            for part_frames, tracer_frames in zip(
+                self._particles.iter_segments(), 
+                self._tracers.iter_segments()):
+                frame = Frame()
+                frame.tracers = tracer_frames[0]
+                frame.particles = part_frames[0]
+                
+                next_frame = Frame()
+                next_frame.tracers = tracer_frames[1]
+                next_frame.particles = part_frames[1]
+                
+                yield frame, next_frame
+        
+        finally:
+            # restore original frame range.
+            if frame_range != -1:
+                self._particles.set_frame_range(self._rng)
+                self._tracers.set_frame_range(self._rng)
 
 def read_dual_scene(conf_fname):
     """
-- 
2.43.0


From 7035a0301804c16d95fb50f27a3f65689f0b5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 08/47] fix: iteration over a Sequence

The iterator had only the Python 2 next(); a subrange stayed in force for later
iterations when its own was abandoned; and the tracers' schema was missing when
their trajectories had already been read. A generator keeps all of the state of
an iteration to that iteration.
---
 flowtracks/sequence.py | 71 +++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 43 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dde3457..7b7239f 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -160,23 +160,7 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        if not hasattr(self, '_act_rng'):
-            self._act_rng = self._rng
-        
-        self._frame = self._act_rng[0]
-        
-        # Make sure the particle trajectory cache is populated.
-        self.particle_trajectories()
-        self.__schema = self.__ptraj[0].schema()
-        if not (self.__ttraj is None):
-            return self
-        
-        # Make sure the tracers cache is populated:
-        self.tracer_trajectories()
-        
-        self.__tschem = self.__ttraj[0].schema()
-        
-        return self
+        return self.iter_subrange(*self._rng)
     
     def iter_subrange(self, first, last):
         """
@@ -190,35 +174,36 @@ class Sequence(object):
         Returns:
         A Python iteraor.
         """
-        self._act_rng = (first, last)
-        return self
-    
-    def next(self):
-        if self._frame == self._act_rng[1]:
-            del self._act_rng
-            raise StopIteration
-        
-        frame = Frame()
-        tracer_ixs = trajectories_in_frame(self.__ttraj, self._frame, 
-            self.__tstarts, self.__tends, segs=True)
-        tracer_trjs = [self.__ttraj[t] for t in tracer_ixs]
-        frame.tracers = take_snapshot(tracer_trjs, self._frame, self.__tschem)
+        # Make sure the particle trajectory cache is populated.
+        self.particle_trajectories()
+        self.__schema = self.__ptraj[0].schema()
         
-        part_ixs = trajectories_in_frame(self.__ptraj, self._frame,
-            self.__pstarts, self.__pends, segs=True)
-        part_trjs = [self.__ptraj[t] for t in part_ixs]
-        frame.particles = take_snapshot(part_trjs, self._frame, self.__schema)
-
-        self._frame += 1
+        # Make sure the tracers cache is populated:
+        self.tracer_trajectories()
         
-        next_frame = Frame()
-        next_frame.tracers = take_snapshot(tracer_trjs, self._frame,
-            self.__tschem)
-        next_frame.particles = take_snapshot(part_trjs, self._frame,
-            self.__schema)
-        self._next_frame = next_frame
+        self.__tschem = self.__ttraj[0].schema()
         
-        return frame, next_frame
+        for frame_num in range(first, last):
+            frame = Frame()
+            tracer_ixs = trajectories_in_frame(self.__ttraj, frame_num, 
+                self.__tstarts, self.__tends, segs=True)
+            tracer_trjs = [self.__ttraj[t] for t in tracer_ixs]
+            frame.tracers = take_snapshot(tracer_trjs, frame_num, 
+                self.__tschem)
+            
+            part_ixs = trajectories_in_frame(self.__ptraj, frame_num,
+                self.__pstarts, self.__pends, segs=True)
+            part_trjs = [self.__ptraj[t] for t in part_ixs]
+            frame.particles = take_snapshot(part_trjs, frame_num, 
+                self.__schema)
+            
+            next_frame = Frame()
+            next_frame.tracers = take_snapshot(tracer_trjs, frame_num + 1,
+                self.__tschem)
+            next_frame.particles = take_snapshot(part_trjs, frame_num + 1,
+                self.__schema)
+            
+            yield frame, next_frame
     
     def map_trajectories(self, func, subrange=None, history=False, args=()):
         """
-- 
2.43.0


From b49a4010a82911b49e7e0102074b30168011d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:48 +0000
Subject: [PATCH 09/47] fix: map_trajectories() shifted results after a frame
 without one

Results were placed by counting them, so a frame for which the function gave no
result for a trajectory (e.g. as its particle overlaps another one there) moved
all its later results to earlier times.
---
 flowtracks/sequence.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 7b7239f..dfa607a 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -233,9 +233,9 @@ class Sequence(object):
         
         # Allocate result space:
         res = {}
-        frame_counters = {}
+        first_frames = {}
         
-        # Initialize result buffer and frame counter per trajectory.
+        # Initialize result buffer and first frame per trajectory.
         for tr in trajects:
             trid = tr.trajid()
             t = tr.time()[:-1]
@@ -248,7 +248,7 @@ class Sequence(object):
                 continue
             
             res[trid] = [None]*len_in_range
-            frame_counters[trid] = 0
+            first_frames[trid] = t[in_range][0]
         
         for frame, next_frame in self.iter_subrange(*subrange):
             if history:
@@ -258,8 +258,7 @@ class Sequence(object):
             frm_res = func(*fargs)
             
             for k, v in frm_res.items():
-                res[k][frame_counters[k]] = v
-                frame_counters[k] += 1
+                res[k][int(frame.particles.time() - first_frames[k])] = v
         
         for k in res.keys():
             res[k] = np.array(res[k])
-- 
2.43.0


From d66371e32180bb04e3ed14792b15eba5b47737bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:50 +0000
Subject: [PATCH 10/47] fix: Sequence.save_config() wrote values that
 read_sequence() refuses

The default minimal length was written as '0.0', which is not an integer, and
only the first '%' of a file name template was escaped.
---
 flowtracks/sequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index dfa607a..848f52c 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -14,7 +14,7 @@ class Sequence(object):
     iteration and trajectory-mapping.
     """
     def __init__(self, frange, frate, particle, part_tmpl, tracer_tmpl,
-                 smooth_tracers=False, traj_min_len=0.):
+                 smooth_tracers=False, traj_min_len=0):
         """
         Arguments:
         frange - tuple, (first frame #, after last frame #)
@@ -287,8 +287,8 @@ class Sequence(object):
         cfg.set("Scene", "trajectory minimal length", str(self._minlen))
         
         # Need to escape these because of ConfigParser's 'magic variables'.
-        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%', 1))
-        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%', 1))
+        cfg.set("Scene", "tracers file", self._trtmpl.replace('%', '%%'))
+        cfg.set("Scene", "particles file", self._ptmpl.replace('%', '%%'))
 
 def read_sequence(conf_fname, smooth=None, traj_min_len=None):
     """
-- 
2.43.0


From c0ec97ef61bb2d533750cedc35dfa8e0c0ae991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:10 +0000
Subject: [PATCH 11/47] fix: scalar columns of HDF files had a dimension of
 length 1

NumPy reads ('trajid', int, 1) as one-element rows, so save_particles_table(),
save_frames_hdf() and analysis() failed to fill the columns trajid and time.
---
 flowtracks/analysis.py   | 2 +-
 flowtracks/io.py         | 6 +++---
 flowtracks/trajectory.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/flowtracks/analysis.py b/flowtracks/analysis.py
index 604b77c..1036eb2 100644
--- a/flowtracks/analysis.py
+++ b/flowtracks/analysis.py
@@ -114,7 +114,7 @@ def analysis(scene, analysis_file, conf_file, analysers, frame_range=-1):
         :meth:`DualScene.iter_segments() <flowtracks.scene.DualScene.iter_segments>`
     """
     # Structure the output file:
-    descr = [('trajid', int, 1), ('time', int, 1)]
+    descr = [('trajid', int), ('time', int)]
     for analyser in analysers:
         descr.extend(analyser.descr())
     descr = np.dtype(descr)
diff --git a/flowtracks/io.py b/flowtracks/io.py
index 81c3ce7..3c1c5a8 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -706,7 +706,7 @@ def save_particles_table(filename, trajects, trim=None):
         # First trajectory creates the table:
         if table is None:
             # Format of records in a trajectory array :
-            fields = [('trajid', int, 1)] + [(field,) + desc \
+            fields = [('trajid', int)] + [(field,) + desc \
                 for field, desc in traj.ext_schema().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
@@ -755,7 +755,7 @@ def save_frames_hdf(filename, frames):
         # First frame creates the table:
         if table is None:
             # Format of records in a frame array:
-            fields = [('time', int, 1)] + [(field,) + desc \
+            fields = [('time', int)] + [(field,) + desc \
                 for field, desc in frame.ext_schema().items()]
             dtype = np.dtype(fields)
             table = outfile.create_table('/', 'particles', dtype)
@@ -788,7 +788,7 @@ def save_frames_hdf(filename, frames):
     table.cols.time.create_index()          
     
     bounds_tab = outfile.create_table('/', 'bounds', 
-        np.dtype([('trajid', int, 1), ('first', int, 1), ('last', int, 1)]))
+        np.dtype([('trajid', int), ('first', int), ('last', int)]))
     for trid, bounds in ongoing_trajects.items():
         bounds_tab.append([(trid, bounds[0], bounds[1])])
     bounds_tab.cols.trajid.create_index()
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 37bda16..11c8270 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -107,7 +107,7 @@ class ParticleSet(object):
         schm = {}
         for propname in self._check_attr:
             prop = self.__dict__['_' + propname]
-            shape = prop.shape[-1] if prop.ndim > 1 else 1
+            shape = prop.shape[-1] if prop.ndim > 1 else ()
             schm[propname] = (prop.dtype.type, shape)
             
         return schm
-- 
2.43.0


From be08e2249116eddabce5367652e7d94bba50586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 12/47] fix: uninitialised memory in inverse-distance
 interpolation

Data for a missing neighbour (not enough tracers, or not within the radius) was
left unset. Its weight is 0, but 0 times a leftover NaN or infinity is NaN. The
cached data was also assumed to have as many components as the positions.
---
 flowtracks/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 2f843fd..cb24af7 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -375,7 +375,7 @@ class GeneralInterpolant(object):
             self.__interp_pts, self.__comp)
         
         self.__has_data = self.__active_neighbs < self.__tracers.shape[0]
-        matched_pos = np.empty(
+        matched_pos = np.zeros(
             self.__active_neighbs.shape + (self.__tracers.shape[1],))
         matched_pos[self.__has_data] = \
             self.__tracers[self.__active_neighbs[self.__has_data]]
@@ -413,8 +413,8 @@ class GeneralInterpolant(object):
         Calculate or retrieve cache of data in (m,k,d) structure.
         """
         if self.__matched_data is None:
-            self.__matched_data = np.empty(
-                self.__active_neighbs.shape + (self.__tracers.shape[1],))
+            self.__matched_data = np.zeros(
+                self.__active_neighbs.shape + (self.__data.shape[1],))
             self.__matched_data[self.__has_data] = \
                 self.__data[self.__active_neighbs[self.__has_data]]
         return self.__matched_data
@@ -730,7 +730,7 @@ class InverseDistanceWeighter(GeneralInterpolant):
             matched_data = self._ensure_matched_data()
         else:
             data = self.current_data()
-            matched_data = np.empty(act_neighbs.shape + (data.shape[1],))
+            matched_data = np.zeros(act_neighbs.shape + (data.shape[1],))
             has_data = act_neighbs < data.shape[0]
             matched_data[has_data] = data[act_neighbs[has_data]]
         
-- 
2.43.0


From e3eaa70c2c7e920e376278e5990f41d44d09923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:21 +0000
Subject: [PATCH 13/47] fix: Jacobian of old data after
 set_data_on_current_field()

The data matched to neighbours was cached, and not dropped when data changed.
---
 flowtracks/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index cb24af7..acc875e 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -320,6 +320,7 @@ class GeneralInterpolant(object):
             else:
                 data = data[None, :]
         self.__data = data
+        self.__matched_data = None
     
     def trim_points(self, which):
         """
-- 
2.43.0


From 420ee5c0836adc04c62d45c257d59a59acb5cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:23 +0000
Subject: [PATCH 14/47] fix: interpolants used neighbours and weights of
 replaced tracers

Inverse-distance weights were not recalculated after set_field_positions(), and
a frame without tracers left the search tree and neighbours of the previous one
in place.
---
 flowtracks/interpolation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index acc875e..68a4281 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -273,8 +273,6 @@ class GeneralInterpolant(object):
         """
         # Keep the original data, for B.C purposes mostly.
         self.__tracers = np.atleast_2d(positions)
-        if len(self.__tracers) == 0:
-            return
         self.__field_tree = cKDTree(positions)
         self._drop_neighbours_cache()
     
@@ -392,6 +390,9 @@ class GeneralInterpolant(object):
         Returns an (m,k,3) array, the distance between interpolation point m
         and each of k nearest neighbours on each axis.
         """
+        if self.__active_neighbs is None:
+            self._forego_laziness()
+                
         return self.__rel_pos
     
     def current_dists(self):
@@ -660,10 +661,10 @@ class InverseDistanceWeighter(GeneralInterpolant):
     
     def set_interp_points(self, points, companionship=None):
         GeneralInterpolant.set_interp_points(self, points, companionship)
-        if len(self.field_positions()) == 0:
-            return
-        
         self._forego_laziness()
+    
+    def _forego_laziness(self):
+        GeneralInterpolant._forego_laziness(self)
         self.__weights = self.weights(self.current_dists(), 
             self.current_active_neighbs())
     
-- 
2.43.0


From d4af2e10bbbe58488e67d33ccdc873f8097b2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 15/47] fix: trim_points() left part of the per-point state
 untrimmed

Relative positions, matched data and companions kept the removed points, so the
Jacobian and later neighbour searches mixed up the points or failed.
---
 flowtracks/interpolation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 68a4281..816b207 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -330,9 +330,14 @@ class GeneralInterpolant(object):
         """
         keep = ~which
         self.__interp_pts = self.__interp_pts[keep]
+        if self.__comp is not None:
+            self.__comp = self.__comp[keep]
         if self.__dists is not None:
             self.__dists = self.__dists[keep]
             self.__active_neighbs = self.__active_neighbs[keep]
+            self.__has_data = self.__has_data[keep]
+            self.__rel_pos = self.__rel_pos[keep]
+        self.__matched_data = None
     
     def _select_neighbs(self, interp_pts, comp=None):
         """
-- 
2.43.0


From b45324384bede6f53d5888a46e3aa0ef89922fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 16/47] fix: neighbour selection with both a coincident tracer
 and a companion

Only one extra neighbour was requested, so when a point has a tracer at its own
position and another one as its companion, the neighbours of the points after
it moved by one, or reshape() failed.
---
 flowtracks/interpolation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 816b207..604988f 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -356,15 +356,18 @@ class GeneralInterpolant(object):
             represented by the total number of data points.
         """
         dists, active_neighbs = self.__field_tree.query(
-            interp_pts, self._neighbs + 1, distance_upper_bound=self._upb)
+            interp_pts, self._neighbs + 2, distance_upper_bound=self._upb)
         keep = dists > 0.
         
         if comp is not None:
             keep &= active_neighbs != comp[:, None]
         
-        keep[np.all(keep, axis=1), -1] = False
-        dists = dists[keep].reshape(-1, self._neighbs)
-        active_neighbs = active_neighbs[keep].reshape(-1, self._neighbs)
+        # The dropped ones become missing neighbours, farther than all others.
+        dists[~keep] = np.inf
+        active_neighbs[~keep] = self.__tracers.shape[0]
+        closest = np.argsort(dists, axis=1, kind='stable')[:, :self._neighbs]
+        dists = np.take_along_axis(dists, closest, axis=1)
+        active_neighbs = np.take_along_axis(active_neighbs, closest, axis=1)
         
         return dists, active_neighbs
         
@@ -372,9 +375,9 @@ class GeneralInterpolant(object):
         """
         Populate the neighbours cache.
         """
-        # Take one more neighbour because one will be removed, either for 
-        # being in the same position as the interp points or being its 
-        # companion (worst case, the extra farthest neighbour is removed).
+        # Two more neighbours are taken because two may be removed, one for
+        # being in the same position as the interp points and one for being 
+        # its companion (otherwise, the extra farthest ones are removed).
         self.__dists, self.__active_neighbs = self._select_neighbs(
             self.__interp_pts, self.__comp)
         
-- 
2.43.0


From a4c1c4dc599cb9ebc8a16f512c7bbecbd39ca8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:10 +0000
Subject: [PATCH 17/47] fix: select_neighbs() chose an excluded tracer when
 there were few

With no more than num_neighbs tracers, the companion (or a tracer in the same
position) was selected too, at a distance of 0.
---
 flowtracks/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 604988f..8fe9ce5 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -69,6 +69,7 @@ def select_neighbs(tracer_pos, interp_points, radius=None, num_neighbs=None,
         use_parts[
             np.repeat(np.arange(interp_points.shape[0]), eff_num_neighbs),
             dist_sort[:, :num_neighbs].flatten()] = True
+        use_parts[np.isinf(dists)] = False
 
     else:
         use_parts = dists < radius
@@ -590,7 +591,7 @@ class GeneralInterpolant(object):
         
         for pt in range(interp_points.shape[0]):
             # allow assignment of less than the desired number of neighbours.
-            ndists[pt] = dists[pt, use_parts[pt]]
+            ndists[pt, :use_parts[pt].sum()] = dists[pt, use_parts[pt]]
         
         return ndists
     
-- 
2.43.0


From 59fc02683cc250a24e6b68bc3394fa2773d0c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:12 +0000
Subject: [PATCH 18/47] fix: repeated interpolation with the rbf and corrfun
 methods

interpolate() handed them the indices of the neighbours where they take a mask
over all tracers. The distances between tracers had also some set to 0, as the
companions of the interpolation points were applied to them.
---
 flowtracks/interpolation.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 8fe9ce5..ee45ac0 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -391,8 +391,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             self.__tracer_dists, _ = select_neighbs(
-                self.__tracers, self.__tracers, self._radius, self._neighbs,
-                self.__comp)
+                self.__tracers, self.__tracers, self._radius, self._neighbs)
                 
     def current_relative_positions(self):
         """
@@ -474,12 +473,19 @@ class GeneralInterpolant(object):
             selection is not changed, so ``subset`` is forgotten after the
             call.
         """
+        # These methods need the selection and distances for all tracers.
+        dists = np.linalg.norm(
+            self.__tracers[None, :, :] - self.__interp_pts[:, None, :], axis=2)
+        points, ranks = np.nonzero(act_neighbs < self.__tracers.shape[0])
+        use_parts = np.zeros(dists.shape, dtype=bool)
+        use_parts[points, act_neighbs[points, ranks]] = True
+        
         if self._method == 'rbf':
-            return rbf_interp(self.__tracer_dists, self.__dists, act_neighbs,
+            return rbf_interp(self.__tracer_dists, dists, use_parts,
                               self.__data, self._par)
         
         if self._method == 'corrfun':
-            return corrfun_interp(self.__dists, act_neighbs, self.__data, 
+            return corrfun_interp(dists, use_parts, self.__data, 
                                   self._corrs, self._bins)
         
         # This isn't supposed to ever happen. The constructor should fail.
@@ -523,7 +529,7 @@ class GeneralInterpolant(object):
         
         if self._method == 'rbf':
             tracer_dists = select_neighbs(tracer_pos, tracer_pos, 
-                self._radius, self._neighbs, companionship)[0]
+                self._radius, self._neighbs)[0]
             return rbf_interp(tracer_dists, dists, use_parts, data, self._par)
         
         elif self._method == 'corrfun':
-- 
2.43.0


From 2b1e5a5bbef76390bba4494ec0602434586ca7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 19/47] fix: calling an InverseDistanceWeighter raised
 NotImplementedError

---
 flowtracks/interpolation.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index ee45ac0..cc12d21 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -729,7 +729,21 @@ class InverseDistanceWeighter(GeneralInterpolant):
         vel_interp - an (m,3) array with the interpolated value at the position
             of each particle, [m/s].
         """
-        raise NotImplementedError()
+        if len(tracer_pos) == 0:
+            # Temporary measure until I can safely discard frames.
+            warnings.warn("No tracers in frame, interpolation returned zeros.")
+            ret_shape = data.shape[-1] if data.ndim > 1 else 1
+            return np.zeros((interp_points.shape[0], ret_shape))
+        
+        dists, use_parts = select_neighbs(tracer_pos, interp_points, 
+            self._radius, self._neighbs, companionship)
+        
+        # Here the j-th column is for the j-th tracer, for all points.
+        unused = tracer_pos.shape[0]
+        active = np.where(use_parts, np.arange(unused)[None,:], unused)
+        weights = self.weights(np.where(use_parts, dists, np.inf), active, 
+            unused)
+        return self._apply_weights(weights, data[None,...])
         
     def _meth_interp(self, act_neighbs=None):
         """
-- 
2.43.0


From 9dca461ac7a4aba8b96a3750e276a4f2a939b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 20/47] fix: configuration files of interpolants could not be
 read back

Nones were written as 'None', and the file name that is the parameter of
corrfun was read as a number.
---
 flowtracks/interpolation.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index cc12d21..8b1115c 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -612,9 +612,13 @@ class GeneralInterpolant(object):
         """
         if not cfg.has_section("Interpolant"):
             cfg.add_section("Interpolant")
-        cfg.set('Interpolant', 'radius', str(self.radius()))
-        cfg.set('Interpolant', 'num_neighbs', str(self.num_neighbs()))
-        cfg.set('Interpolant', 'param', str(self._par))
+        # Whatever is None is the default on reading, and can't be written.
+        for key, val in [('radius', self.radius()), 
+            ('num_neighbs', self.num_neighbs()), ('param', self._par)]:
+            if val is None:
+                cfg.remove_option('Interpolant', key)
+            else:
+                cfg.set('Interpolant', key, str(val).replace('%', '%%'))
         cfg.set('Interpolant', 'method', self._method)
 
 class InverseDistanceWeighter(GeneralInterpolant):
@@ -824,7 +828,12 @@ def read_interpolant(conf_fname):
         kwds['num_neighbs'] = parser.getint('Interpolant', 'num_neighbs')
     if parser.has_option('Interpolant', 'radius'):
         kwds['radius'] = parser.getfloat('Interpolant', 'radius')
+    
+    method = parser.get('Interpolant', 'method')
     if parser.has_option('Interpolant', 'param'):
-        kwds['param'] = parser.getfloat('Interpolant', 'param')
+        if method == 'corrfun': # The parameter is a file name.
+            kwds['param'] = parser.get('Interpolant', 'param')
+        else:
+            kwds['param'] = parser.getfloat('Interpolant', 'param')
     
-    return interpolant(parser.get('Interpolant', 'method'), **kwds)
+    return interpolant(method, **kwds)
-- 
2.43.0


From a5af946b90267381f572389b40f31a90cc5c429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:08 +0000
Subject: [PATCH 21/47] fix: analyse_fhdf.py used the method parameter as
 search radius

---
 scripts/analyse_fhdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/analyse_fhdf.py b/scripts/analyse_fhdf.py
index 3567302..f98e5b2 100644
--- a/scripts/analyse_fhdf.py
+++ b/scripts/analyse_fhdf.py
@@ -27,7 +27,12 @@ if __name__ == "__main__":
         "parameter. Inverse power for inv, epsilon for RBF, filename for corrfun")
     args = parser.parse_args()
     
-    interp = interpolant(args.method, args.neighbs, args.param)
+    # Only the correlation function parameter, a file name, is not a number.
+    param = args.param
+    if param is not None and args.method != 'corrfun':
+        param = float(param)
+    
+    interp = interpolant(args.method, args.neighbs, param=param)
     scene = read_dual_scene(args.config)
     analysers = [ FluidVelocitiesAnalyser(interp) ]
     analysis(scene, args.output, args.config, analysers)
-- 
2.43.0


From 039bdc85a4ea2cda76f92203ca20b02c7341676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:25 +0000
Subject: [PATCH 22/47] fix: savitzky_golay() used np.mat, which NumPy removed

---
 flowtracks/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index c10086f..00a74cf 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -64,8 +64,8 @@ def savitzky_golay(trajs, fps, window_size, order):
         'trajid']
     
     # precompute coefficients
-    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
-    m = np.linalg.pinv(b).A
+    b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
+    m = np.linalg.pinv(b)
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From 29bae10f3533790a88856d9b18d4ff0208a4e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 23/47] fix: savitzky_golay() failed for polynomials of order
 below 3

---
 flowtracks/smoothing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index 00a74cf..e2a9820 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -66,6 +66,8 @@ def savitzky_golay(trajs, fps, window_size, order):
     # precompute coefficients
     b = np.array([[k**i for i in order_range] for k in range(-half_window, half_window+1)])
     m = np.linalg.pinv(b)
+    # Higher derivatives of a polynomial of order < 3 are 0.
+    m = np.vstack((m, np.zeros((4, window_size))))
     m_pos = m[0]
     m_vel = m[1] * fps
     m_acc = m[2] * (fps**2 * 2)
-- 
2.43.0


From bb568853617fc2d11c07666318b2513530bc1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 24/47] fix: smoothing again kept the vel_pp of the first
 smoothing

---
 flowtracks/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/smoothing.py b/flowtracks/smoothing.py
index e2a9820..cdd8864 100644
--- a/flowtracks/smoothing.py
+++ b/flowtracks/smoothing.py
@@ -60,7 +60,7 @@ def savitzky_golay(trajs, fps, window_size, order):
     
     # Properties that should not be copied from the old trajectory because
     # they are obtained otherwise (or copied elsewhere).
-    smoothed_keys = ['pos', 'velocity', 'accel', 'acc_pp', 'time', 
+    smoothed_keys = ['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time', 
         'trajid']
     
     # precompute coefficients
-- 
2.43.0


From a51e4b0b564990a64275df61e4e542e76fb32c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:13 +0000
Subject: [PATCH 25/47] fix: particle_pairs() returned pairs in the order of
 trajectories

The output is by the order of requests, which may repeat a trajectory.
---
 flowtracks/pairs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index ff63183..d8585e0 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -68,7 +68,10 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
             axis=2)
         pair_ixs = np.argmin(dists_sq, axis=1)
-        pair_trids[coord_locator] = sec_parts.trajid(pair_ixs)
+        # The snapshot is ordered by the list of trajectories, not by request.
+        prim_ixs = [np.nonzero(prim_parts.trajid() == trid)[0][0] \
+            for trid in trajids[coord_locator]]
+        pair_trids[coord_locator] = sec_parts.trajid(pair_ixs[prim_ixs])
         pair_time[coord_locator] = frame_num # later transformed.
     
     # Transform frame numbers back into time index in the output array.
-- 
2.43.0


From 027b97868abda09f06d91ca7d52b9feecb33f3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 26/47] fix: particle_pairs() with float times or different
 extra properties

---
 flowtracks/pairs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index d8585e0..410222c 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -62,7 +62,8 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
             pair_time[coord_locator] = -1
             continue
             
-        sec_parts = take_snapshot(sec_in_frame, frame_num, schema)
+        sec_parts = take_snapshot(sec_in_frame, frame_num, 
+            sec_in_frame[0].schema())
         
         dists_sq = np.sum(
             (prim_parts.pos()[:,None,:] - sec_parts.pos()[None,:,:])**2,
@@ -80,6 +81,6 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
     for traj in secondary_trajects:
         trid = traj.trajid()
         if trid not in unique_sec: continue
-        pair_time[pair_trids == trid] -= traj.time(0)
+        pair_time[pair_trids == trid] -= int(traj.time(0))
         
     return pair_trids, pair_time
-- 
2.43.0


From a3a57f435671551a740723747f9726c60bec1c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 27/47] fix: uninitialised results of particle_pairs() for
 unknown trajectories

---
 flowtracks/pairs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flowtracks/pairs.py b/flowtracks/pairs.py
index 410222c..074fc3a 100644
--- a/flowtracks/pairs.py
+++ b/flowtracks/pairs.py
@@ -29,8 +29,8 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
         returns -1 as the pair_time value.
     """
     # Output buffers:
-    pair_trids = np.empty_like(time_points)
-    pair_time = np.empty_like(time_points)
+    pair_trids = np.full_like(time_points, -1)
+    pair_time = np.full_like(time_points, -1)
     
     # Filter the primary set to only contain the trajectories actually required
     unique_prim = np.unique(trajids)
@@ -43,12 +43,13 @@ def particle_pairs(primary_trajects, secondary_trajects, trajids, time_points):
         traj_coords = trajids == traj.trajid()
         frames[traj_coords] = traj.time(time_points[traj_coords])
 
-    unique_frames = np.unique(frames)
+    found = np.isin(trajids, [t.trajid() for t in prim_traj])
+    unique_frames = np.unique(frames[found])
     schema = prim_traj[0].schema()
     
     # For each frame, create snapshots and compare positions.
     for frame_num in unique_frames:
-        coord_locator = frames == frame_num
+        coord_locator = found & (frames == frame_num)
         prim_in_frame_ids = np.unique(trajids[coord_locator])
         prim_in_frame = [t for t in prim_traj if t.trajid() in prim_in_frame_ids]
         prim_parts = take_snapshot(prim_in_frame, frame_num, schema)
-- 
2.43.0


From a42d3b45876dfb4f72b126e5ec294193f15e6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:46 +0000
Subject: [PATCH 28/47] fix: trajectories_acc() depended on the order of
 directory listing

Reading stopped at the first listed file out of range, and the last frame
of the range, which is inclusive, was not read.
---
 flowtracks/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3c1c5a8..c0bc4c5 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -225,14 +225,18 @@ def trajectories_acc(fname, first=None, last=None):
     dirname, basename = os.path.split(os.path.expanduser(fname))
     is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
     
+    # Ids are given by order, so it can't be the arbitrary order of listing.
+    frame_files = []
     for fname in os.listdir(dirname):
         match = is_data_file.match(fname)
         if match is None: continue
         frame = int(match.group(1))
         
         if first is not None and frame < first: continue
-        if last is not None and frame >= last: break
-        
+        if last is not None and frame > last: continue
+        frame_files.append((frame, fname))
+    
+    for frame, fname in sorted(frame_files):
         table = np.loadtxt(os.path.join(dirname, fname),
             usecols=(0,1,2,3,4,5,6,7,8,33))
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
-- 
2.43.0


From b5ac3a2888e07bc2f8ed049415bc9028cf7c193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 29/47] fix: order of load_trajectories() was that of directory
 listing

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index c0bc4c5..c8df627 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -850,7 +850,7 @@ def load_trajectories(res_dir, first=None, last=None):
     trajects = []
     per_traject_adds = {}
     
-    for tr_file in os.listdir(res_dir):
+    for tr_file in sorted(os.listdir(res_dir)):
         if not tr_file.endswith('.npz'): continue
         
         data = np.load(os.path.join(res_dir, tr_file))
-- 
2.43.0


From 03bfe65562c48a4ce3a3074525a38e22b0f3c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 30/47] fix: recognition of frame files by template

Templates with a padded frame number or without a directory were not
recognized, and files with anything after the expected name were.
---
 flowtracks/io.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index c8df627..76c5fc5 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -29,6 +29,21 @@ from .trajectory import Trajectory, mark_unique_rows, \
     Frame, take_snapshot, trajectories_in_frame
 
 
+def frame_file_pattern(basename):
+    """
+    Create a regular expression for recognizing the files of all frames.
+    
+    Arguments:
+    basename - a template file name without a directory, with exactly one '%d'
+        (possibly padded, e.g. '%04d') representing the frame number.
+    
+    Returns:
+    a compiled regular expression matching only the names generated from the
+    template. Its only group is the frame number.
+    """
+    prefix, suffix = re.split(r'%\d*d', basename, maxsplit=1)
+    return re.compile(re.escape(prefix) + r'(\d+)' + re.escape(suffix) + '$')
+
 class FramesIterator(object):
     def __init__(self, fname_tmpl, fmt, skip, first=None, last=None):
         """
@@ -45,12 +60,12 @@ class FramesIterator(object):
             np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
         
         dirname, basename = os.path.split(fname_tmpl)
-        is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+        is_data_file = frame_file_pattern(basename)
 
         # Collect existing frames. This is necessary to ensure that frames are
         # processed in the correct order.
         self._frame_nums = []
-        for name in os.listdir(dirname):
+        for name in os.listdir(dirname or os.curdir):
             match = is_data_file.match(name)
             if match is None: continue
             frame = int(match.group(1))
@@ -223,11 +238,11 @@ def trajectories_acc(fname, first=None, last=None):
     """
     trajects = []
     dirname, basename = os.path.split(os.path.expanduser(fname))
-    is_data_file = re.compile(basename.replace('%d', r'(\d+)', 1))
+    is_data_file = frame_file_pattern(basename)
     
     # Ids are given by order, so it can't be the arbitrary order of listing.
     frame_files = []
-    for fname in os.listdir(dirname):
+    for fname in os.listdir(dirname or os.curdir):
         match = is_data_file.match(fname)
         if match is None: continue
         frame = int(match.group(1))
-- 
2.43.0


From d1d7175901f7a0ef4da83e2325c36700d6fd3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 31/47] fix: reading of xuap files

They have a 15th column, and links in them are floating-point numbers, both
refused by the current np.loadtxt().
---
 flowtracks/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 76c5fc5..78cc002 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -56,8 +56,13 @@ class FramesIterator(object):
             numbering.
         """
         self._frmix = 0
+        # There may be more columns than those known by ``fmt``, and xuap files
+        # have links written as floating-point numbers.
+        num_cols = sum(np.prod(fmt[fld].shape, dtype=int) for fld in fmt.names)
+        link = lambda text: int(float(text))
         self._read_frame = lambda fix: np.atleast_1d(
-            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip))
+            np.loadtxt(fname_tmpl % fix, dtype=fmt, skiprows=skip,
+            usecols=range(num_cols), converters={0: link, 1: link}))
         
         dirname, basename = os.path.split(fname_tmpl)
         is_data_file = frame_file_pattern(basename)
-- 
2.43.0


From 62d6c239f613fd966a1af2239c2737db20d2604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 32/47] fix: concatenated ptv_is files with one particle in a
 frame

Also fixes the name of the destructor.
---
 flowtracks/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 78cc002..3b262e3 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -114,7 +114,8 @@ class SingleFileIterator(object):
         """
         self._frmix = 0
         self._f = open(fname, 'r')
-        self._read_frame = lambda str_tbl: np.loadtxt(str_tbl, dtype=fmt)
+        self._read_frame = lambda str_tbl: np.atleast_1d(
+            np.loadtxt(str_tbl, dtype=fmt))
     
     def __iter__(self):
         return self
@@ -143,7 +144,7 @@ class SingleFileIterator(object):
         self._frmix += 1
         return curframenum, frame
     
-    def __def__(self):
+    def __del__(self):
         self._f.close()
     
 def collect_particles(fname_tmpl, frame, path_seg=False):
-- 
2.43.0


From 8879e336e96551a9ec5dbbb9380acc13d2aba2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 33/47] fix: an empty frame in a concatenated ptv_is file ended
 its reading

---
 flowtracks/io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 3b262e3..4949e24 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -113,6 +113,7 @@ class SingleFileIterator(object):
         skip - number of header lines to skip in each file.
         """
         self._frmix = 0
+        self._fmt = fmt
         self._f = open(fname, 'r')
         self._read_frame = lambda str_tbl: np.atleast_1d(
             np.loadtxt(str_tbl, dtype=fmt))
@@ -131,16 +132,20 @@ class SingleFileIterator(object):
         
         # Make the stringio object to be used by read_frame
         lines = []
+        at_end = True
         for line in self._f:
+            at_end = False
             if re.match(r'^\s*$', line):
                 break
             lines.append(line)
         
-        if len(lines) == 0:
+        if at_end:
             raise StopIteration # EOF
         
-        str_tbl = StringIO("".join(lines))
-        frame = self._read_frame(str_tbl)
+        if len(lines) == 0: # No particles in this frame
+            frame = np.empty(0, dtype=self._fmt)
+        else:
+            frame = self._read_frame(StringIO("".join(lines)))
         self._frmix += 1
         return curframenum, frame
     
-- 
2.43.0


From 32afe445684254c66852658c606374292c397bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 34/47] fix: reading ptv_is files when there are none in range
 raised RuntimeError

---
 flowtracks/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 4949e24..9c7a773 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -323,7 +323,10 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
         frm_iter = SingleFileIterator(fname, fmt)
     
     # In the first frame, every particle starts a trajectory.
-    frame_num, table = next(frm_iter)    
+    try:
+        frame_num, table = next(frm_iter)
+    except StopIteration: # No frames at all
+        return
     
     pos = table['pos']
     if not xuap: pos /=1000.
-- 
2.43.0


From 56f08656338cb5bbcbd95c8f50868f29c09eb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 35/47] fix: ptv_is trajectories of the first frame only were
 never returned

---
 flowtracks/io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 9c7a773..90c9653 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -350,10 +350,10 @@ def iter_trajectories_ptvis(fname, first=None, last=None, frate=1., xuap=False,
     
     # Single-frame trajectories in first frame:
     ending = table['next'] - count_base == -2
-    if ending.any():
-        ending_trids = np.atleast_1d(frame[ending,-1].astype(np.int64))
-        for trid in ending_trids:
-            trajects[trid] = frame[frame[:,-1] == trid]
+    if traj_min_len <= 1:
+        for row in frame[ending]:
+            yield Trajectory(row[None,:3], row[None,3:6], row[None,6],
+                int(row[7]), accel=np.zeros((1, 3)))
     
     frame_buffer_start = 0
     
-- 
2.43.0


From 5657f25bdd7911166fc806a48b326ea2152ec777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 36/47] fix: save_particles_table() failed when asked to trim 0
 time points

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 90c9653..2a783ae 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -751,7 +751,7 @@ def save_particles_table(filename, trajects, trim=None):
             if trim is None:
                 arr[k] = v
             else:
-                arr[k] = v[trim:-trim]
+                arr[k] = v[trim:len(traj) - trim]
         
         table.append(arr)
         bounds_tab.append([
-- 
2.43.0


From 121fca53f63aee5d801c6ae4ad7a189adfc6be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 37/47] fix: trajectories() did not read the last frame of the
 range from HDF

The range is inclusive for all formats.
---
 flowtracks/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2a783ae..9e83686 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -535,7 +535,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
             traj_min_len=traj_min_len)
     
     elif fmt == 'hdf':
-        scene = Scene(fname, (first, last))
+        # The range of a scene does not include its end.
+        scene = Scene(fname, (first, None if last is None else last + 1))
         it = scene.iter_trajectories()
         if iter_allowed:
             traj = it
-- 
2.43.0


From 99a7b20a2b4073bc2a325d81d786c05e4b9d48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:32 +0000
Subject: [PATCH 38/47] fix: unknown formats in trajectories() ended in
 UnboundLocalError

---
 flowtracks/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 9e83686..bbcdbca 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -543,6 +543,9 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
         else:
             traj = [t for t in it]
     
+    else:
+        raise ValueError("Unknown trajectories format: %s" % fmt)
+    
     if filter_needed:
         if traj_min_len is None:
             traj_min_len = 2
-- 
2.43.0


From c3ad471d15fbd0b1fd98cdc319d3c430c48176be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 39/47] fix: empty trajectories from HDF files made Sequence
 fail

---
 flowtracks/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index bbcdbca..2260de5 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -537,7 +537,8 @@ def trajectories(fname, first, last, frate, fmt=None, traj_min_len=None,
     elif fmt == 'hdf':
         # The range of a scene does not include its end.
         scene = Scene(fname, (first, None if last is None else last + 1))
-        it = scene.iter_trajectories()
+        # Trajectories completely out of range are read as empty.
+        it = (t for t in scene.iter_trajectories() if len(t) > 0)
         if iter_allowed:
             traj = it
         else:
-- 
2.43.0


From b175cfb08c4379d9bf2c12d91f843f4c48f1834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:15 +0000
Subject: [PATCH 40/47] fix: shape of collect_particles_generic() without
 particles in frame

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 2260de5..4b8d390 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -626,7 +626,7 @@ def collect_particles_generic(trajects, frame, path_seg=False):
         selected.append(sel)
     
     if len(selected) == 0:
-        return np.empty((2,0,7))
+        return np.empty((2,0,8) if path_seg is True else (0,8))
     
     if path_seg is True:
         all_rows = np.concatenate(selected, axis=1)
-- 
2.43.0


From d83328e8fc91d922062c9f69c332d0ef21f6798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:19 +0000
Subject: [PATCH 41/47] fix: collect_particles() stopped at frames where no
 long path starts

---
 flowtracks/io.py         | 4 ----
 flowtracks/trajectory.py | 2 +-
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 4b8d390..5b77cfa 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -188,10 +188,6 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
         else:
             in_frame = table[table[:,-1] == path_age]
         
-        # When no previous path is long enough to reach ``frame``:
-        if in_frame.shape[0] == 0:
-            break
-        
         selected.append(in_frame)
         cur_frame -= 1
     
diff --git a/flowtracks/trajectory.py b/flowtracks/trajectory.py
index 11c8270..2c77567 100644
--- a/flowtracks/trajectory.py
+++ b/flowtracks/trajectory.py
@@ -232,7 +232,7 @@ def mark_unique_rows(all_rows):
     # Remove duplicates (particles occupying same position):
     srt = np.lexsort(all_rows[:,:3].T)
     diff = np.diff(all_rows[srt,:3], axis=0).any(axis=1)
-    uniq = np.r_[srt[0], srt[1:][diff]]
+    uniq = np.r_[srt[:1], srt[1:][diff]]
     uniq.sort()
         
     return uniq
-- 
2.43.0


From 7fd92cd6499614c08160261d88ba95e765eaf810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:30 +0000
Subject: [PATCH 42/47] fix: reading of trajAcc files with one line

---
 flowtracks/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 5b77cfa..8518c64 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -177,7 +177,8 @@ def collect_particles(fname_tmpl, frame, path_seg=False):
     fname_tmpl = os.path.expanduser(fname_tmpl)
     
     while os.path.exists(fname_tmpl % cur_frame):
-        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33))
+        table = np.loadtxt(fname_tmpl % cur_frame, usecols=(0,1,2,3,4,5,33),
+            ndmin=2)
         path_age = frame - cur_frame
         
         if path_seg is True:
@@ -260,7 +261,7 @@ def trajectories_acc(fname, first=None, last=None):
     
     for frame, fname in sorted(frame_files):
         table = np.loadtxt(os.path.join(dirname, fname),
-            usecols=(0,1,2,3,4,5,6,7,8,33))
+            usecols=(0,1,2,3,4,5,6,7,8,33), ndmin=2)
         traj_starts = np.nonzero(table[:,-1] == 0)[0]
         traj_ends = np.r_[traj_starts[1:], table.shape[0]]
         
-- 
2.43.0


From 1d3150d138b0c6475c818cca9ca6997348dc674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 43/47] fix: finite-difference derivatives leave the companions
 out as the interpolation does

---
 flowtracks/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flowtracks/interpolation.py b/flowtracks/interpolation.py
index 8b1115c..5529253 100644
--- a/flowtracks/interpolation.py
+++ b/flowtracks/interpolation.py
@@ -561,11 +561,11 @@ class GeneralInterpolant(object):
 
         ret = np.empty((self.__interp_pts.shape[0], 3, 3))
         ret[:,:,0] = self(self.__tracers,
-            self.__interp_pts + np.r_[eps,0,0], self.__data) 
+            self.__interp_pts + np.r_[eps,0,0], self.__data, self.__comp)
         ret[:,:,1] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,eps,0], self.__data) 
+            self.__interp_pts + np.r_[0,eps,0], self.__data, self.__comp)
         ret[:,:,2] = self(self.__tracers, 
-            self.__interp_pts + np.r_[0,0,eps], self.__data)
+            self.__interp_pts + np.r_[0,0,eps], self.__data, self.__comp)
         ret = (ret - local_interp[:,:,None]) / eps
         return ret
         
-- 
2.43.0


From c02fe8864924a0ba4d802d079837ca0b12ab45bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 44/47] fix: the subrange of a sequence is in whole frame
 numbers, usable for iteration

---
 flowtracks/sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flowtracks/sequence.py b/flowtracks/sequence.py
index 848f52c..b78d6ac 100644
--- a/flowtracks/sequence.py
+++ b/flowtracks/sequence.py
@@ -73,8 +73,8 @@ class Sequence(object):
         restricting the overall sequence.
         """
         trs = self.particle_trajectories()
-        mins = np.empty(len(trs))
-        maxs = np.empty(len(trs))
+        mins = np.empty(len(trs), dtype=np.int64)
+        maxs = np.empty(len(trs), dtype=np.int64)
         
         for trn, tr in enumerate(trs):
             t = tr.time()
-- 
2.43.0


From 2146374cf0323d3182d935f4c8c4576c95b2a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 45/47] fix: times of a Matlab trajectory with one point are
 still an array

---
 flowtracks/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flowtracks/io.py b/flowtracks/io.py
index 8518c64..2d85778 100644
--- a/flowtracks/io.py
+++ b/flowtracks/io.py
@@ -225,7 +225,7 @@ def trajectories_mat(fname):
         pos = np.hstack((traj['xf'], traj['yf'], traj['zf']))/1000.
         vel = np.hstack((traj['uf'], traj['vf'], traj['wf']))/1000.
         accel = np.hstack((traj['axf'], traj['ayf'], traj['azf']))/1000.
-        t = traj['t'].squeeze()
+        t = traj['t'].ravel()
         trajid = traj['trajid'][0,0]
         trajects.append(Trajectory(pos, vel, t, trajid, accel=accel))
     
-- 
2.43.0


From f99553b24ea3736efd35fcd61e263df835403b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 46/47] fix: both frames of a segment have the particles in the
 same order

---
 flowtracks/scene.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flowtracks/scene.py b/flowtracks/scene.py
index ec2e306..11e273e 100644
--- a/flowtracks/scene.py
+++ b/flowtracks/scene.py
@@ -285,6 +285,10 @@ class Scene(object):
             if len(in_next_arr) > 0:
                 next_arr = next_arr[in_next_arr]
             
+            # The particles may be in another order in the next frame.
+            order = np.argsort(np.argsort(arr['trajid']))
+            next_arr = next_arr[np.argsort(next_arr['trajid'])[order]]
+            
             # format as ParticleSnapshot.
             kwds = dict((field, arr[field]) for field in arr.dtype.fields \
                 if field != 'time')
-- 
2.43.0


From 2d0f52f86f753f8263865ed97096dd8d189bfe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 47/47] fix: trajectories of an analysed scene join particles
 and analysis by time

---
 flowtracks/an_scene.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flowtracks/an_scene.py b/flowtracks/an_scene.py
index 8f288fa..fd62c19 100644
--- a/flowtracks/an_scene.py
+++ b/flowtracks/an_scene.py
@@ -156,14 +156,17 @@ class AnalysedScene(object):
         """
         traj = self._scene.get_particles().trajectory_by_id(trid)
         
-        # Trim last point of trajectory to match analysis:
-        kwds = dict((k, v[:-1]) for k, v in traj.as_dict().items())
-        kwds['trajid'] = trid
-        
         # Fetch by foreign key from analysis:
         query_string = '(trajid == trid)'
         arr = self._table.read_where(query_string)
         
+        # Leave only points present in both, e.g. the last point of the 
+        # trajectory is not analysed, and the ranges may be different.
+        analysed = np.isin(traj.time(), arr['time'])
+        arr = arr[np.isin(arr['time'], traj.time())]
+        kwds = dict((k, v[analysed]) for k, v in traj.as_dict().items())
+        kwds['trajid'] = trid
+        
         # Update into the Trajectory object:
         for field in arr.dtype.fields:
             if field not in ['trajid', 'time']:
-- 
2.43.0

