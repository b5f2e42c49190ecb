#!/usr/bin/env python3
"""
The properties, in one place: writes properties.jsonl and MANIFEST.json for
those that have obligations or rules in props/.
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
F = 'flowtracks/'
TESTS = {
    'scene': 'The scene tests read one small HDF fixture with one range of '
             'frames.',
    'io': 'The reader tests use one fixture directory per format and compare '
          'a few counts.',
    'interp': 'The interpolation tests use a handful of points with one '
              'number of neighbours and no change of the scene.',
    'none': 'No existing test calls it with more than one kind of input.',
    'data': 'The tests construct one trajectory with one extra property.',
}
P = []


def prop(id, title, statement, over, text, tests, files, mech, **more):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over.split(), 'text': text},
         'why_tests_cant': TESTS.get(tests, tests) + ' The property '
         'quantifies over ' + text + '.',
         'anchors': {'files': [F + f if '/' not in f else f
                               for f in files.split()],
                     'mechanism': [{'name': n, 'where': w}
                                   for n, w in mech]}}
    d['anchors'].update(more)
    assert len(title) <= 80, title
    P.append(d)


prop('D01', 'Accessors of trajectories and snapshots give the data put in',
     'Every property given to a trajectory or a snapshot, required or extra, '
     'is returned by the accessor of its name, whole or at a selection; '
     'setting one property, whole or at a selection, changes that property '
     'there and nothing else, and no other object. The dictionary form and '
     'the schema list exactly the properties held, with their values and the '
     'shape of one element.',
     'inputs histories', 'all sets of properties, their shapes, selections '
     'and sequences of changes', 'data', 'trajectory.py',
     [('ParticleSet.create_property', F + 'trajectory.py'),
      ('ParticleSet.as_dict, schema, ext_schema', F + 'trajectory.py')])
prop('Y01', 'What was asked before does not change an answer',
     'Asking a trajectory, a snapshot, a scene, a dual or analysed scene, a '
     'sequence or an interpolant gives the same answer whatever was asked '
     'before and however often. A function called with some inputs gives '
     'what it would if it was never called with others, and answers already '
     'given do not change.',
     'inputs histories', 'all objects, queries and orders of queries', 'A '
     'test asks an object once or twice.',
     'trajectory.py scene.py an_scene.py sequence.py interpolation.py io.py '
     'smoothing.py pairs.py graphics.py',
     [('Scene', F + 'scene.py'), ('DualScene', F + 'scene.py'),
      ('AnalysedScene', F + 'an_scene.py'),
      ('Sequence', F + 'sequence.py'),
      ('GeneralInterpolant', F + 'interpolation.py'),
      ('trajectories and the readers', F + 'io.py')])
prop('D02', 'Indexing a trajectory gives position, velocity, time and id',
     'Indexing a trajectory by any one-dimensional selection gives, for every '
     'selected point and in this order of columns, its position, velocity, '
     'time and the trajectory id.',
     'inputs', 'all trajectories and selections', 'data', 'trajectory.py',
     [('Trajectory.__getitem__', F + 'trajectory.py')])
prop('D03', 'A snapshot has each trajectory at the frame asked for',
     'A snapshot of trajectories at a frame holds, for every trajectory of '
     'the list in its order, the values of each property at the point of '
     'that frame, the trajectory id and the frame. The trajectories found '
     'in a frame are those whose first and last times enclose it (and the '
     'next frame, when segments are asked for), one for each position.',
     'inputs', 'all lists of trajectories, frames, schemas and properties',
     'data', 'trajectory.py',
     [('take_snapshot', F + 'trajectory.py'),
      ('trajectories_in_frame', F + 'trajectory.py')])
prop('D04', 'Particles at one position are kept once, in the order of rows',
     'Filtering of duplicates keeps one row for each distinct position '
     '(first three columns) and drops every other, and returns the kept row '
     'numbers in ascending order.',
     'inputs', 'all tables of rows, among them empty ones', 'data',
     'trajectory.py', [('mark_unique_rows', F + 'trajectory.py')])
prop('H01', 'A scene shows exactly the frames first <= t < last',
     'Whatever is read from a scene with a range of frames (frames, '
     'trajectories, a trajectory by its id, collected data) has exactly the '
     'points with first <= time < last; a bound that is None does not limit, '
     'and without a range all times of the file are shown. The range may be '
     'changed or removed at any moment and is then what later reads obey.',
     'inputs histories configurations', 'all files, ranges and sequences of '
     'changes of the range', 'scene', 'scene.py',
     [('Scene.set_frame_range', F + 'scene.py'),
      ('Scene.iter_frames, iter_trajectories, trajectory_by_id, collect',
       F + 'scene.py')])
prop('H02', 'Collected data obey all the conditions given',
     'Collecting data returns, for the keys asked for and in their order, the '
     'values at exactly the points fulfilling every condition: lower <= value '
     '< upper, or its complement for an inverted one, with the bounds at '
     'full precision, together with the range of frames.',
     'inputs', 'all keys, conditions and bounds', 'scene',
     'scene.py', [('Scene.collect', F + 'scene.py'),
                  ('gen_query_string', F + 'scene.py')])
prop('H03', 'Segments pair the same trajectories one frame apart',
     'Iteration over segments gives, for every frame of the range whose next '
     'one is in it too, the snapshot of that frame and of the next one, both '
     'reduced to the trajectories present in both, so that the same '
     'trajectory is in the same place in both.',
     'inputs configurations', 'all files and ranges', 'scene', 'scene.py',
     [('Scene.iter_segments', F + 'scene.py'),
      ('DualScene.iter_segments', F + 'scene.py')])
prop('H05', 'Keys and shapes of a scene describe its columns',
     'The keys of a scene are the columns of its table but the trajectory id '
     'and time, and the shapes are the numbers of components of those keys '
     'in the same order; for a scene with an analysis, those of the '
     'particles and then those of the analysis.',
     'inputs', 'all tables', 'scene', 'scene.py an_scene.py',
     [('Scene.keys, shapes', F + 'scene.py'),
      ('AnalysedScene.keys, shapes', F + 'an_scene.py')])
prop('H06', 'A dual scene pairs tracers and particles of the same time',
     'Each frame or segment of a dual scene has the tracers of one file and '
     'the particles of the other at the same times, over the range set or '
     'the one given for that iteration. A configuration file gives the '
     'scene with its files, range (the last frame included), frame rate and '
     'particle.',
     'inputs configurations', 'all pairs of files, ranges and '
     'configurations', 'scene', 'scene.py',
     [('DualScene.iter_frames, iter_segments', F + 'scene.py'),
      ('read_dual_scene', F + 'scene.py')])
prop('H07', 'An iteration over another range leaves the set range as it was',
     'After an iteration over a range given for it alone the dual scene and '
     'both of its files have the range they had before, whether the '
     'iteration was exhausted, abandoned or ended by an exception.',
     'inputs histories fault_sequences', 'all ranges and ways for an '
     'iteration to end', 'scene', 'scene.py',
     [('DualScene.iter_frames, iter_segments: try/finally',
       F + 'scene.py')])
prop('H09', 'The bounding box is the recorded one or that of the positions',
     'The bounding box of a scene is the one recorded in its file or, where '
     'there is none, the least and greatest position, in each of the three '
     'directions, over the points the scene shows.',
     'inputs', 'all files', 'scene', 'scene.py',
     [('Scene.bounding_box', F + 'scene.py')])
prop('H10', 'Trajectories of a scene are complete and each is given once',
     'The trajectory ids of a file are its distinct ids; iterating over '
     'trajectories gives each of them once with all its points and all '
     'columns as properties; the tags give the first and last time of each.',
     'inputs', 'all files', 'scene', 'scene.py',
     [('Scene.trajectory_ids, iter_trajectories, trajectory_tags',
       F + 'scene.py')])
prop('W01', 'Writing a particle table keeps every point of the trajectories',
     'The particle table written from a list of trajectories has one row for '
     'each point left after trimming the given number of points at both '
     'ends, with its trajectory id, time and the values of all properties '
     'under their names; without trimming no point is lost.',
     'inputs', 'all lists of trajectories, properties and trim lengths',
     'io', 'io.py', [('save_particles_table', F + 'io.py')])
prop('W02', 'Writing frames keeps every frame and the bounds of the data',
     'The file written from frames has one row for every particle of every '
     'frame with its values and the time of the frame, a table with the '
     'first and last time of each trajectory, and the extents of the '
     'positions.',
     'inputs', 'all lists of trajectories and frames', 'io', 'io.py',
     [('save_frames_hdf', F + 'io.py')])
prop('W03', 'Trajectories saved one per file are read back the same',
     'Saving trajectories one per file writes all properties of each under a '
     'name with its id, with what is saved besides; loading gives back '
     'every trajectory with the properties and id it had, and the added '
     'data by trajectory id.',
     'inputs', 'all lists of trajectories and added data', 'io', 'io.py',
     [('save_trajectories', F + 'io.py'), ('load_trajectories',
                                          F + 'io.py')])
prop('W04', 'A sequence saved to a configuration is read back the same',
     'The configuration saved from a sequence has its range of frames (the '
     'last one included), frame rate, particle, file names, smoothing and '
     'shortest length of trajectories, and reading it makes a sequence with '
     'the same values; what is given to the reader as an argument has '
     'precedence over the file.',
     'inputs configurations', 'all sequences, among them file names with '
     'special characters', 'none', 'sequence.py',
     [('Sequence.save_config', F + 'sequence.py'),
      ('read_sequence', F + 'sequence.py')])
prop('W05', 'An interpolant saved to a configuration is read back the same',
     'The configuration saved from an interpolant has its method and those '
     'of number of neighbours, radius and parameter that are set; reading a '
     'configuration makes an interpolant of that method with these values '
     'as numbers (for correlation functions the parameter is a file name) '
     'and the defaults for what is not there.',
     'inputs configurations', 'all methods, parameters and missing options',
     'none', 'interpolation.py',
     [('GeneralInterpolant.save_config', F + 'interpolation.py'),
      ('read_interpolant', F + 'interpolation.py')])
prop('R01', 'Readers give the frames first to last, both included',
     'A reader asked for a range of frames gives the points with first <= '
     'time <= last and no others; without a bound nothing is left out on '
     'that side.',
     'inputs', 'all files, formats that have frames and ranges', 'io',
     'io.py', [('trajectories_acc, trajectories_ptvis, trajectories_table, '
                'load_trajectories', F + 'io.py')])
prop('R02', 'The format decides the reader, the shortest length the result',
     'Trajectories are read by the reader of the format given or of that '
     'told by the file name, an unknown format is refused, and exactly '
     'those with at least the shortest length (by default the one '
     'documented) are returned, as a list or one by one alike.',
     'inputs configurations', 'all formats, file names and lengths', 'io',
     'io.py', [('trajectories, iter_trajectories', F + 'io.py'),
               ('infer_format', F + 'io.py')])
prop('R03', 'Matlab data in millimetres are returned in metres',
     'Positions, velocities and accelerations read from Matlab files are '
     'divided by 1000 while times and ids are not.',
     'inputs', 'all Matlab files', 'io', 'io.py',
     [('trajectories_mat', F + 'io.py')])
prop('R04', 'Linked frames give trajectories of the links followed',
     'Each particle of a frame is joined to the trajectory of the particle '
     'its link to the previous frame points at, or starts one; positions '
     'are in metres and velocities the difference of positions times the '
     'frame rate, and every point of every frame is in one trajectory at '
     'its time.',
     'inputs', 'all sequences of linked frames', 'io', 'io.py',
     [('iter_trajectories_ptvis', F + 'io.py')])
prop('R07', 'Data of a frame are read with the particles of that frame',
     'The particles collected for a frame (and those of the next one, if '
     'asked for) are exactly those of the files or trajectories at that '
     'time, each position once, in both frames the same trajectories; a '
     'frame read from a configuration has its particle and the tracers and '
     'particles of that frame.',
     'inputs configurations', 'all files, formats and frames', 'io',
     'io.py', [('collect_particles, collect_particles_generic, '
                'read_frame_data', F + 'io.py')])
prop('I01', 'Neighbours are the nearest others within the radius',
     'The neighbours selected for a point are the nearest data points, at '
     'most the number asked for and none beyond the radius given, and never '
     'one at the point itself or its companion, which are replaced by the '
     'next nearest ones; the distances given are those to the neighbours.',
     'inputs', 'all positions, numbers, radii and companions', 'interp',
     'interpolation.py',
     [('select_neighbs', F + 'interpolation.py'),
      ('GeneralInterpolant._select_neighbs, neighb_dists',
       F + 'interpolation.py')])
prop('I02', 'Interpolation uses what was set last',
     'After any change of the positions of the data, the points, the '
     'companions or the data themselves, interpolation, derivatives, '
     'neighbours and distances are those of a new interpolant given the '
     'present values.',
     'inputs histories', 'all scenes and sequences of changes and '
     'interpolations', 'interp', 'interpolation.py',
     [('GeneralInterpolant._drop_neighbours_cache and the set methods',
       F + 'interpolation.py')],
     state=[{'name': 'cached neighbours, weights and matched data',
             'meaning': 'derived from what was set',
             'where': F + 'interpolation.py'}])
prop('I03', 'Inverse distance weighting is the weighted mean of neighbours',
     'With inverse distances the value at a point is the mean of the data '
     'of its neighbours weighted by the distance to the power -p (default '
     'p 1, four neighbours), others having no weight; this also holds for '
     'a selection of neighbours given for one interpolation, which is '
     'forgotten afterwards.',
     'inputs', 'all positions, data, powers and selections', 'interp',
     'interpolation.py',
     [('InverseDistanceWeighter.weights, _apply_weights, _meth_interp, '
       '__call__', F + 'interpolation.py')])
prop('I04', 'Correlation and radial basis methods follow their formulas',
     'With correlation functions the value is the mean of the neighbours '
     'weighted by the correlation of the bin of their distance; with radial '
     'basis functions it is the sum of Gaussians of the distance times the '
     'coefficients solving the same kernel among the neighbours. Both hold '
     'on a scene and for a single call.',
     'inputs', 'all positions, data and parameters', 'interp',
     'interpolation.py',
     [('corrfun_interp, rbf_interp', F + 'interpolation.py')])
prop('I05', 'The method named decides the interpolant and its defaults',
     'The interpolant has the method, number of neighbours, radius and '
     'parameter given, with the documented defaults of the method for those '
     'not given; an unknown method, correlation functions without a file, '
     'and a selection with neither radius nor number are refused.',
     'inputs configurations', 'all methods and parameters', 'interp',
     'interpolation.py', [('interpolant', F + 'interpolation.py')])
prop('I06', 'Without tracers interpolation gives zeros and warns',
     'Interpolating from no data points gives zeros in the shape of the '
     'result, with a warning, and a warning is given in no other case.',
     'inputs', 'all methods, points and data', 'interp',
     'interpolation.py',
     [('GeneralInterpolant.interpolate, __call__', F + 'interpolation.py')])
prop('I07', 'Trimming points keeps everything about the others aligned',
     'After points are trimmed, whatever the interpolant gives (values, '
     'derivatives, distances, neighbours, relative positions) is for the '
     'points kept, in their order, with their companions; relative '
     'positions are those of the neighbours from the point.',
     'inputs histories', 'all scenes, selections and later changes',
     'interp', 'interpolation.py',
     [('GeneralInterpolant.trim_points', F + 'interpolation.py'),
      ('InverseDistanceWeighter.trim_points', F + 'interpolation.py')])
prop('I08', 'Off-scene interpolation neither uses nor changes the scene',
     'Interpolating by a call, asking for distances or for derivatives '
     'leaves the scene set before as it was, and the result of a call '
     'depends on its arguments only.',
     'inputs histories', 'all scenes and calls', 'interp',
     'interpolation.py',
     [('GeneralInterpolant.__call__, neighb_dists, eulerian_jacobian',
       F + 'interpolation.py')])
prop('I09', 'Derivatives have the component first, the direction second',
     'Element [i, j] of the derivatives at a point is that of component i '
     'in direction j: the difference to a point displaced in direction j by '
     'the step (with the same companion) over the step, or, for inverse distances, the analytic '
     'derivative with the power of the weights.',
     'inputs', 'all scenes, methods, powers and steps', 'interp',
     'interpolation.py',
     [('eulerian_jacobian', F + 'interpolation.py')])
prop('A01', 'An analysis has one row for each particle and segment',
     'The analysis file has, for every segment of the range and every '
     'particle in it, one row with trajectory id, time of the segment and '
     'the results of all analysers under the names they describe, and '
     'records the configuration and the file of trajectories.',
     'inputs configurations', 'all scenes, ranges and lists of analysers',
     'none', 'analysis.py', [('analysis', F + 'analysis.py')])
prop('A02', 'The fluid velocity at particles leaves companions out',
     'The fluid velocity at each particle is interpolated from the '
     'velocities of the tracers of the same frame, without the companion '
     'tracer of the particle when it has one in the frame, and the relative '
     'velocity is the velocity of the particle less that.',
     'inputs', 'all frames, with and without companions', 'none',
     'analysis.py',
     [('FluidVelocitiesAnalyser.analyse', F + 'analysis.py'),
      ('companion_indices', F + 'analysis.py')])
prop('A03', 'An analysed scene joins particles and analysis by point',
     'A trajectory of an analysed scene has the properties of the particles '
     'at the points analysed together with the results at the same points; '
     'collected data are those of points that fulfil every condition, each '
     'looked up where its key is stored, in both tables.',
     'inputs', 'all files, keys and conditions', 'none', 'an_scene.py',
     [('AnalysedScene.trajectory_by_id, iter_trajectories, collect',
       F + 'an_scene.py')])
prop('A04', 'The command line reaches the analysis unchanged',
     'The analysis run from the command line is that of the scene of the '
     'configuration file, into the output file, with the interpolation '
     'method, number of neighbours and parameter given (a number except '
     'for correlation functions), or their documented defaults.',
     'inputs configurations', 'all command lines', 'none',
     'scripts/analyse_fhdf.py analysis.py',
     [('the main block', 'scripts/analyse_fhdf.py')])
prop('Q01', 'Iterating a sequence gives each frame with the next one',
     'Iterating a sequence gives, for every frame from the first to before '
     'the end of the range, the tracers and particles of it and of the next '
     'frame, each pair with the trajectories present in both; iteration can be repeated and '
     'a range given for one iteration leaves the range as it was.',
     'inputs histories', 'all sequences, ranges and repeated iterations',
     'none', 'sequence.py',
     [('Sequence.__iter__, next, iter_subrange', F + 'sequence.py')])
prop('Q02', 'A sequence uses the selectors set last',
     'The trajectories of a sequence and the frames made of them are those '
     'read and passed through the selector set last, also when the selector '
     'is changed after they were used, and all of them without a selector.',
     'inputs histories', 'all selectors and orders of setting and use',
     'none', 'sequence.py',
     [('Sequence.set_tracer_selector, set_particle_selector, '
       'particle_trajectories, tracer_trajectories', F + 'sequence.py')],
     state=[{'name': 'cached trajectories', 'meaning': 'what was read and '
             'selected', 'where': F + 'sequence.py'}])
prop('Q03', 'Results of mapping are placed by trajectory and time',
     'Mapping a function over the frames of a sequence puts the result for '
     'each particle and frame at the row of that time in the array of its '
     'trajectory, rows without a result being None, and calls it once for '
     'each frame with this frame and the next one, the results so far when '
     'a history is asked for, and the additional arguments.',
     'inputs', 'all sequences, functions and ranges', 'none',
     'sequence.py', [('Sequence.map_trajectories', F + 'sequence.py')])
prop('Q04', 'The subrange covers all the particle trajectories',
     'The range of frames found for a set of particle trajectories starts '
     'with the earliest and ends with the latest time of any of them, '
     'within the range of the sequence, as whole frame numbers.',
     'inputs', 'all selected trajectories', 'none', 'sequence.py',
     [('Sequence.subrange', F + 'sequence.py')])
prop('S01', 'Smoothed data are the least-squares polynomial at each point',
     'Smoothing gives for every point of a trajectory the value of the '
     'polynomial of the given order fitted by least squares to the window '
     'around it, with its first and second derivative in time as velocity '
     'and acceleration (using the frame rate), the ends being padded by '
     'reflection; the values expected from the previous polynomial are '
     'those of its expansion by one frame.',
     'inputs', 'all trajectories, windows, orders and frame rates',
     'The smoothing test compares one trajectory.', 'smoothing.py',
     [('savitzky_golay', F + 'smoothing.py')])
prop('S02', 'Smoothing keeps identity, times and other properties',
     'Each trajectory at least as long as the window gives one smoothed '
     'trajectory, in the same order, with its id, times and all properties '
     'that smoothing does not produce; shorter ones are left out, and even '
     'windows or those too small for the order are refused.',
     'inputs', 'all lists of trajectories and properties',
     'The smoothing test compares one trajectory.', 'smoothing.py',
     [('savitzky_golay', F + 'smoothing.py')])
prop('S03', 'Each pair is the nearest particle in the same frame',
     'For each particle asked for, in the order of asking, the pair is the '
     'particle of the second set nearest to it in the same frame and is '
     'given by its trajectory and the index of the point in it; where there '
     'is none both are -1.',
     'inputs', 'all sets of trajectories and requests', 'none', 'pairs.py',
     [('particle_pairs', F + 'pairs.py')])
prop('S04', 'Spline smoothing keeps time and identity',
     'A trajectory smoothed by splines has the times and id of the original '
     'and one position, velocity and acceleration for each: those of the '
     'spline and of its first and second derivative at the same points, the '
     'spline being allowed the error bound once for every point. One with no '
     'more points than the order is returned as it is.',
     'inputs', 'all trajectories, bounds and orders', 'none',
     'trajectory.py', [('Trajectory.smoothed', F + 'trajectory.py')])
prop('S05', 'Mass and volume of a particle follow its diameter and density',
     'The volume of a particle is that of the sphere with its diameter and '
     'the mass is that times its density, at any moment.',
     'inputs histories', 'all diameters, densities and changes of them',
     'none', 'particle.py', [('Particle', F + 'particle.py')])
prop('G01', 'Graphs show the densities and components they are given',
     'The graph of a density has the density of each bin against the start '
     'of that bin on the axes asked for, the bins being equally spaced or, '
     'for logarithmic ones, equally spaced in the logarithm of the positive '
     'samples; vectors are plotted one component to a subplot with their '
     'own arrows, scale and ticks.',
     'inputs', 'all samples, bins and options', 'none', 'graphics.py',
     [('pdf_bins, pdf_graph, generalized_histogram_disp, plot_vectors',
       F + 'graphics.py')])
prop('X01', 'No operation can fail by a name, attribute or argument mistake',
     'Every name and attribute used by the package exists where it is used, '
     'on each path to the use, and every call of a function of the package '
     'gives the arguments it takes. A missing optional argument or value is '
     'never used as if it were there.',
     'inputs configurations', 'all paths of all functions',
     'The tests run part of the lines, each on one path.',
     'io.py scene.py sequence.py interpolation.py trajectory.py analysis.py '
     'an_scene.py smoothing.py pairs.py graphics.py particle.py '
     'scripts/analyse_fhdf.py', [('all modules', 'flowtracks')])
prop('X02', 'Data passed in are not modified',
     'No operation that is not a setter changes the arrays, lists, '
     'trajectories, snapshots or dictionaries it is given.',
     'inputs', 'all public operations and arguments', 'none',
     'io.py scene.py sequence.py interpolation.py trajectory.py analysis.py '
     'an_scene.py smoothing.py pairs.py graphics.py',
     [('all modules', 'flowtracks')])
prop('X03', 'Files opened for writing or reading at once are closed',
     'Every file an operation opens for itself (one it does not hand on as '
     'part of its result) is closed, and so flushed, by the time it returns '
     'normally.',
     'inputs', 'all paths of the operations that write or read files',
     'none', 'io.py analysis.py sequence.py',
     [('save_particles_table, save_frames_hdf, analysis', 'flowtracks')])
prop('H08', 'Reading never writes, removes or renames files',
     'A scene, dual scene or analysed scene opens its files for reading '
     'only, and no operation on it, nor any of the readers of trajectories, '
     'frames and configurations, writes, removes or renames anything.',
     'inputs histories', 'all operations on scenes, all readers', 'none',
     'scene.py an_scene.py io.py', [('tables.open_file', F + 'scene.py')])
prop('R05', 'Results do not depend on the order of a directory listing',
     'Data read from several files are in the order of their frames or '
     'names, whatever the order in which the file system lists them.',
     'inputs configurations', 'all orders of directory listings', 'io',
     'io.py', [('trajectories_acc, load_trajectories', F + 'io.py')])
prop('R06', 'No uninitialised memory reaches a result',
     'Every element of every array that is returned, stored or written has '
     'been given a value.',
     'inputs', 'all inputs', 'none',
     'io.py scene.py sequence.py interpolation.py trajectory.py analysis.py '
     'pairs.py', [('numpy.empty buffers', 'flowtracks')])
prop('X04', 'Element types of arrays hold the values put in them',
     'Positions, velocities and whatever is computed from them are kept with '
     'fractions and in double precision, and times and ids as whole numbers '
     'of full size: no array that holds them, in memory or in a file, is '
     'made with elements of a type that cuts them off.',
     'inputs', 'all operations and inputs', 'none',
     'io.py trajectory.py interpolation.py analysis.py sequence.py pairs.py',
     [('arrays made with a type of elements', 'flowtracks')])

prop('X05', 'What is kept for one item is not shared with another',
     'Entries an operation keeps or gives out for different trajectories, '
     'frames, times or keys have storage of their own: changing one in place '
     'never changes another one.',
     'inputs histories', 'all loops of all functions and generators', 'none',
     'io.py scene.py sequence.py interpolation.py trajectory.py analysis.py '
     'an_scene.py smoothing.py pairs.py graphics.py',
     [('loops that keep or give out values', 'flowtracks')])

prop('N01', 'Interpolated values approximate the field they come from',
     'Where the data are samples of a smooth field, the interpolated value '
     'at a point is within a bound, set by the distance of its neighbours, '
     'of the field there.',
     'inputs', 'all fields, positions and parameters', 'interp',
     'interpolation.py', [('weighted means', F + 'interpolation.py')])
prop('N02', 'Smoothing and radial bases are numerically stable',
     'A smoothed trajectory is within the error bound given of the measured '
     'points, and the weights of radial bases reproduce the data at the '
     'points themselves, up to rounding.',
     'inputs', 'all trajectories, positions and parameters', 'none',
     'trajectory.py interpolation.py',
     [('Trajectory.smoothed, rbf_interp', 'flowtracks')])
prop('N03', 'An interrupted save does not pass for a complete one',
     'If writing a file of trajectories, frames or analysis is interrupted, '
     'what is left is not read as if it were complete.',
     'crash_points', 'all points of interruption', 'none', 'io.py analysis.py',
     [('save_particles_table, save_frames_hdf, analysis', 'flowtracks')])

TECH = {
    'ob': 'static value-flow analysis: symbolic dataflow terms of the '
          'current source (global value numbering over gated SSA) compared '
          'with those of a specification',
    'rule': 'static dataflow rules over the syntax tree and resolved calls',
}
NA = [
    ('N01',
     'The error against a true field is a property of numerical values over '
     'random positions; no static argument in reach bounds it.'),
    ('N02',
     'The residual of the spline fit and the conditioning of the linear '
     'systems are properties of floating-point values computed in scipy and '
     'LAPACK; nothing static in reach bounds them.'),
    ('N03',
     'That a killed writer leaves either no file or a complete one is not '
     'provided (files are written in place, through PyTables and numpy); '
     'the states after a crash are made by HDF5, outside the source '
     'analysed.'),
]


def main():
    import sys
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import check
    from vsa import oblig, findings
    check.load_props()
    obs = {}
    for o in oblig.REG:
        obs[o.prop] = obs.get(o.prop, 0) + 1
    rules = {}
    for p, n, f in findings.RULES:
        rules.setdefault(p, []).append(n)
    have = set(obs) | set(rules)
    ids = [p['id'] for p in P]
    for x in sorted(have - set(ids)):
        print('not described: ' + x)
    checks = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    for p in P:
        i = p['id']
        if i not in have:
            continue
        note = []
        if i in obs:
            note.append('%d obligations: the value flow of client code '
                        'through the current source must equal that of the '
                        'specification, for all values of its inputs'
                        % obs[i])
        if i in rules:
            note.append('rules: ' + ', '.join(rules[i]))
        note.append('library semantics as modelled (DESIGN.md); a form the '
                    'analysis cannot compare is reported as undecided in '
                    'the evidence and not as a violation')
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --quick' % i,
            'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'technique': '; '.join(TECH[k] for k, h in
                                   (('ob', obs), ('rule', rules)) if i in h),
            'level': 'other',
            'level_note': '. '.join(note)})
    na = [{'property': p['id'], 'reason': dict(NA).get(p['id'],
                                                       'no check yet')}
          for p in P if p['id'] not in have]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': na}, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', 'without:', [x['property'] for x in na])


if __name__ == '__main__':
    main()
