prop('C01', 'Structure comparison is exact, field by field',
     'Comparing two parameter sets, calibrations, targets, correspondences, path records or 3D vectors with the '
     'library\'s comparison functions reports equality if and only if every field of the two is equal, including every '
     'element of fixed-size arrays and every camera\'s image name. (Media comparison covers the first glass layer only, '
     'as documented; a calibration\'s derived lookup table is not compared.)',
     ['inputs'], 'all pairs of structures, in particular pairs that differ in exactly one field',
     'The tests compare a few hand-made pairs that differ in one or two of the fields; a comparison that skips or '
     'mixes up any other field passes.',
     [L + 'parameters.c', L + 'calibration.c', L + 'tracking_frame_buf.c', L + 'vec_utils.c'],
     [('compare_* functions', L + 'parameters.c, calibration.c, tracking_frame_buf.c'), ('vec_cmp', L + 'vec_utils.c')],
     obs=['return value of compare_*'],
     technique='value-guard decision diagrams over LLVM IR of a witness (result == all fields equal), with a structural '
               'must-facts dataflow over the fields from debug info as second analysis',
     note='Decides the property for every input: the comparator\'s result is compared, path case by path case, with the '
          'conjunction of field equalities; names are compared by an uninterpreted function. A structural finding is reported only when '
          'the diagrams do not prove the comparator right. Name lists up to 4 cameras.')
prop('C02', 'Every opened file is checked, used while open, and closed once',
     'Whatever happens while reading or writing a file - missing file, malformed or truncated contents, over-long '
     'name, failure in a later file - every file the library opened is closed exactly once before the call returns. '
     'No operation is ever done on a file that could not be opened or is already closed.',
     ['inputs', 'fault_sequences'], 'every file content and every combination of files that can or cannot be opened',
     'Tests read good files and a couple of missing ones; a leaked or doubly closed stream on an error path changes '
     'no test result.',
     [L + 'parameters.c', L + 'calibration.c', L + 'tracking_frame_buf.c', L + 'orientation.c', L + 'sortgrid.c',
      L + 'image_processing.c'],
     [('fopen/fclose pairing and error labels', L + '*.c')], obs=['open file descriptors after the call'],
     technique='typestate analysis (property simulation) of FILE* values on every path of the inlined IR',
     note='All functions, all paths; loops with undetermined trip count are assumed to run at least once.')
prop('C03', 'Every memory block is released exactly once by its owner',
     'No call leaks memory, releases a block twice or touches a block after releasing it, on success and on every '
     'failure path. Blocks handed to the caller are fully released by the matching free function, which releases '
     'everything the constructor allocated.',
     ['inputs', 'fault_sequences'], 'all inputs, failing files and allocation failures the code tests for',
     'Tests do not count allocations; leaks and double frees on error paths, and destructors that forget a field, '
     'pass unnoticed.',
     [L + 'parameters.c', L + 'calibration.c', L + 'tracking_frame_buf.c', L + 'tracking_run.c', L + 'orientation.c',
      L + 'correspondences.c', L + 'track.c', L + 'image_processing.c', L + 'segmentation.c', L + 'sortgrid.c'],
     [('malloc/calloc/free pairing', L + '*.c'), ('free_sequence_par, free_control_par, free_frame, fb_free, tr_free',
       L + 'parameters.c, tracking_frame_buf.c, tracking_run.c')], obs=['live heap blocks after the call'],
     technique='interprocedural ownership/typestate analysis on the inlined IR with bottom-up summaries',
     note='All functions, all paths; loops with undetermined trip count are assumed to run at least once; pointers '
          'stored at unknown indices are tracked per array, not per element.')
prop('C04', 'Failed or malformed reads are reported, never passed off as success',
     'When a file cannot be opened, ends early, contains text where a number is expected, its name does not fit, or a '
     'reader/writer that the call relies on fails, the call returns its documented failure value (NULL, 0 or -1) and '
     'never a success value. Only the documented optional files (added parameters and their fallback) may be missing.',
     ['inputs', 'fault_sequences'], 'every truncation point and every malformed field of every input file, every file '
     'that cannot be opened',
     'Tests use well-formed files and a few missing ones; there are dozens of fields, each of which can be missing or '
     'malformed.',
     [L + 'parameters.c', L + 'calibration.c', L + 'tracking_frame_buf.c', L + 'orientation.c', L + 'sortgrid.c',
      L + 'image_processing.c', L + 'tracking_run.c'],
     [('scan result tests', L + '*.c')], obs=['return value of every read_*/write_* function, prepare_image, '
                                                'tr_new_legacy'],
     technique='path-sensitive dataflow: each fallible operation is split into success/failure outcomes; failing paths '
               'must return the documented failure value',
     note='All status-returning functions and all fallible operations in them; functions without a status (void) are '
          'outside the claim.')

VGT = 'value-graph equivalence over LLVM IR: gated-SSA values normalised to polynomials / decision diagrams; each obligation of a witness program must be identically zero'
VGN = ('Decides each identity for all real inputs (symbolic normal form, no execution, no solver); rounding and overflow '
       'are outside. Residuals that contain values the analysis cannot express are listed as undecided in the evidence '
       'and raise nothing; there are none on the current tree.')
prop('C05', 'Pixel and metric image coordinates map exactly onto each other',
     'Converting an image position from pixels to millimetres puts the origin in the image centre, flips the vertical '
     'axis, and scales each axis by its own pixel size; with interlaced images (chfield 1 or 2) the line number counts '
     'every second line of the frame. Converting from millimetres to pixels is the exact inverse for each of the three '
     'settings of chfield.',
     ['inputs'], 'all image positions, image sizes, pixel sizes and chfield values 0, 1, 2',
     'Tests check a few positions of one camera set-up, mostly square pixels and chfield 0.',
     [L + 'trafo.c'], [('pixel_to_metric, metric_to_pixel', L + 'trafo.c')], obs=['output coordinates'],
     technique=VGT, note=VGN)
prop('C06', 'The rotation matrix is the rotation given by the three angles',
     'For every omega, phi, kappa the matrix computed by rotation_matrix is the product of the rotations about x by '
     'omega, then y by phi, then z by kappa: orthonormal, with determinant 1, and dependent on nothing but the three '
     'angles.',
     ['inputs'], 'all angle triples',
     'Tests compare a handful of angle triples with constants.',
     [L + 'calibration.c'], [('rotation_matrix', L + 'calibration.c')], [('dm', 'rotation matrix derived from the angles',
     LI + 'calibration.h')], ['Exterior.dm'], technique=VGT, note=VGN)
prop('C07', 'Lens distortion follows the Brown-affine model and is inverted by it',
     'Distorting a point applies the documented model: radial terms k1, k2, k3 in powers of the squared radius, '
     'decentering p1, p2, then shear and x scale. The iterative correction stops at a point whose distortion, up to '
     'the last step, is the given point, and leaves the point at the origin where it is. Converting flat to distorted '
     'image coordinates adds the principal point offset before distorting; the reverse conversion corrects the '
     'distortion and then removes the offset.',
     ['inputs'], 'all points and all distortion parameters, including points on the axes and at the origin',
     'Tests use one or two points and parameter sets in which most parameters are zero, so wrong powers, swapped '
     'parameters or a missing cross term go unnoticed.',
     [L + 'trafo.c'], [('distort_brown_affin, correct_brown_affine_exact, flat_to_dist, dist_to_flat', L + 'trafo.c')],
     obs=['output coordinates'], technique=VGT + '; loop variables are symbols and the loop body is checked for one step', note=VGN)
prop('C08', 'Ray tracing through the glass obeys the law of refraction',
     'The ray traced from an image point leaves the inner glass surface: the returned point lies on that surface and '
     'the returned direction is a unit vector. Direction and point are those of the pinhole ray through the image '
     'point refracted twice by Snell\'s law, at the outer surface (air to glass) and, one glass thickness further, at '
     'the inner surface (glass to water), whatever the camera orientation and the inclination of the glass.',
     ['inputs'], 'all image points, camera positions and rotations, glass normals and distances, thicknesses and indices',
     'Tests trace two or three rays with one set of parameters.',
     [L + 'ray_tracing.c'], [('ray_tracing', L + 'ray_tracing.c')], obs=['output point and direction'],
     technique=VGT, note=VGN + ' Rotations and glass inclinations are taken about one axis at a time.')
prop('C09', 'Projection through refracting media matches the multimedia geometry',
     'Projecting a 3D point to a camera equals the pinhole image of the point shifted radially, about the foot of the '
     'camera on the glass, by the refraction factor. The frame used for that has the camera and the point at their '
     'true heights and lateral distance relative to the glass, and transforming back restores the point. Each step of '
     'the search for the factor corrects by the miss of the ray refracted by Snell\'s law at every layer (any number '
     'of glass layers); the factor is the found over the true distance, 1 when all indices are 1, and taken from the '
     'lookup table where the table covers the point. Distorted projection is the flat projection followed by the lens '
     'distortion. Moving along a ray to a given Z stays on the ray.',
     ['inputs'], 'all points, cameras, glass positions, layer counts 1 to 3, thicknesses and refractive indices',
     'Tests project a few points with air-glass-water of one thickness, mostly with the glass facing the z axis.',
     [L + 'multimed.c', L + 'imgcoord.c'],
     [('trans_Cam_Point, back_trans_Point, multimed_r_nlay, multimed_nlay, move_along_ray', L + 'multimed.c'),
      ('flat_image_coord, img_coord', L + 'imgcoord.c')], obs=['image coordinates', 'radial shift factor'],
     technique=VGT + '; loop variables are symbols and the loop body is checked for one step', note=VGN)
prop('C10', 'Epipolar lines and ray intersections are geometrically exact',
     'The end points of an epipolar line are the projections, into the second camera, of the ray of the first camera '
     'at the lower and upper limit of the observed volume, the limits being interpolated linearly in X between the '
     'two given boundaries; the single-medium variant returns the point at mid height. The midpoint of two rays is '
     'half way between their closest points, and their distance is the length of the common perpendicular. A 3D point '
     'seen by several cameras is the mean of the midpoints over all pairs of cameras that see it and the reported '
     'error the mean of their distances; cameras that do not see the point have no influence.',
     ['inputs'], 'all rays, image points, camera pairs, volume limits and visibility patterns of up to four cameras',
     'Tests check a few configurations with all cameras seeing the point.',
     [L + 'epi.c', L + 'orientation.c'], [('epi_mm, epi_mm_2D', L + 'epi.c'),
      ('skew_midpoint, point_position', L + 'orientation.c')], obs=['output points, distances'], technique=VGT, note=VGN)
prop('C11', 'Vector and matrix routines compute their defined operations',
     'Vector sum, difference, scaling, dot and cross product, norms and normalisation, normal-equation products (AtA, '
     'Atl), matrix product and matrix inverse give the mathematically defined result. A matrix embedded in larger '
     'storage is addressed by its storage width; nothing outside the addressed part of the output, and no input, is '
     'changed. Vector routines may write over an operand.',
     ['inputs'], 'all vectors and matrices (matrix sizes: the shapes in lib/wit/lin.c)',
     'Tests multiply and invert one or two small matrices whose storage width equals their size.',
     [L + 'vec_utils.c', L + 'lsqadj.c'], [('vec_*, unit_vector', L + 'vec_utils.c'), ('ata, atl, matinv, matmul',
      L + 'lsqadj.c')], obs=['output arrays'], technique=VGT, note=VGN + ' Loops over matrix sizes are unrolled at fixed sizes.')
prop('C12', 'Image filters compute their documented pixel values',
     'Each interior pixel of the low-pass filtered image is the mean of its 3x3 neighbourhood; of the general filter '
     'the weighted mean limited to the range 8..255 (a filter of zero sum is refused); of the box blur the mean over '
     'the window, shrunk evenly near the border. Subtraction saturates at zero, masking zeroes exactly the pixels '
     'whose mask is zero, copying copies the whole image, and splitting an interlaced image keeps exactly the odd or '
     'even lines and blanks the rest. Pixels not computed are left alone. Preparing an image subtracts its blurred copy, '
     'takes the field asked for, and then filters the result as asked, with the weights of the file in their order.',
     ['inputs'], 'all pixel values and filter weights, on images of several small sizes',
     'Tests use flat or single-spot images, for which wrong neighbours, rounding or saturation do not show.',
     [L + 'image_processing.c'], [('lowpass_3, filter_3, prepare_image, fast_box_blur, split, subtract_img, subtract_mask, copy_images',
      L + 'image_processing.c')], obs=['output image'], technique=VGT,
     note=VGN + ' Pixel values are arbitrary; image sizes are fixed small ones (3x3 to 7x6), at which loops are unrolled.')
prop('C13', 'Tracking predicts and searches positions by the documented geometry',
     'Prediction extrapolates the last two positions linearly. A position is in bounds exactly when each of its '
     'displacement components lies strictly between that component\'s limits. The angle is that between the two '
     'displacements, in gon, and the acceleration the distance from prediction to candidate. The search window of a '
     'camera encloses the projections of all eight corners of the velocity box and is clipped to the image. The '
     'candidate search in a list sorted by y returns the targets inside window and image that have a tracking number, '
     'nearest first, at most four (targets at distinct distances); its variant for unused targets returns the nearest '
     'target without one.',
     ['inputs'], 'all positions, velocity limits, windows and target lists of the sizes in lib/wit',
     'Tests use one or two positions well inside symmetric limits and short target lists.',
     [L + 'track.c'], [('predict, search_volume_center_moving, pos3d_in_bounds, angle_acc, searchquader, candsearch_in_pix, '
      'candsearch_in_pix_rest', L + 'track.c')], obs=['return values and output arrays'], technique=VGT,
     note=VGN + ' Target lists have fixed small lengths.')
prop('C14', 'Functions modify only their documented outputs',
     'A call changes nothing reachable from its arguments but the outputs its documentation names: inputs (points, '
     'calibrations, parameter sets, targets, images, matrices) come back unchanged, an output structure is changed only in '
     'the documented fields, and where input and output may be the same array the result is that of separate arrays.',
     ['inputs'], 'every function of the library with pointer parameters, every path through it',
     'Tests look at results, hardly ever at whether the arguments survived the call.',
     [L + x for x in ('multimed.c', 'orientation.c', 'track.c', 'correspondences.c', 'image_processing.c', 'trafo.c')],
     [('documented outputs per function', 'lib/outputs.spec (from the doc comments in ' + L + ')')],
     obs=['contents of everything reachable from the arguments after the call'],
     technique='interprocedural mod-set (side effect) analysis over access paths with field sensitivity, against a table of outputs',
     note='Flow-insensitive points-to by access paths; array elements are merged, distinct fields kept apart. Writes of the right '
          'value to a wrong element of an output array are not seen here (C05-C13 decide values).')
prop('C15', 'No hidden state: results depend only on arguments and files',
     'Two calls with the same arguments and files give the same results, whatever was called before or meanwhile in other threads: '
     'the library keeps no mutable static data, takes no input from clock, environment, random numbers or standard input, never '
     'ends, signals or forks the process, and never deletes or renames files. (Setting the "C" locale while reading '
     'parameter files is accepted.)',
     ['histories', 'schedules'], 'every call history and interleaving of calls on distinct objects',
     'A test calls a function once or twice in one process; dependence on an earlier call, or a data race on a static '
     'buffer, needs a particular history.',
     [L], [('all functions', L + '*.c')], obs=['results of repeated calls'],
     technique='effect analysis over LLVM IR: mutable static storage and calls with process-wide effects',
     note='Complete for direct calls and globals in the library\'s own code; the C library is trusted to be what its '
          'functions are documented to be.')
prop('C16', 'Every computation ends',
     'Every loop of the library ends whatever its input: it runs over a range fixed beforehand, or its exit test '
     'looks at a value that strictly advances, or at a file being consumed; iterations towards a numerical solution are '
     'capped, so that malformed calibrations and degenerate geometry (NaN included) give a result or a failure and never a hang.',
     ['inputs'], 'every loop of the library, every input including NaN and infinite values',
     'The tests only reach inputs for which the iterations converge after a few steps.',
     [L + x for x in ('multimed.c', 'trafo.c', 'orientation.c', 'track.c', 'parameters.c')],
     [('iteration caps', L + 'multimed.c multimed_r_nlay; trafo.c correct_brown_affine_exact; orientation.c orient, raw_orient')],
     obs=['the call returns'],
     technique='scalar-evolution trip counts, and a progress analysis (monotone loop variables) for the rest, over LLVM IR',
     note='The sorting routines, flood fill and the correspondence sort (listed in lib/c16.py) are assumed to end by their algorithm.')
prop('C17', 'Files are written and read in the documented format, field by field',
     'Every number written to a file (calibration, targets, particle paths, links, parameters) stands in the documented '
     'order, with the documented number of decimals and after a blank, and each number read goes to the field its '
     'place in the file documents; so that what is written is read back to the same fields. File names are built from '
     'the given base, the frame number and the documented suffix, "tif" flags and counts select what is read as documented, '
     'and every record of a list is read and written.',
     ['inputs'], 'all field values; counts, frame numbers and lists of the small sizes in lib/wit/io.c',
     'Tests write and read one or two records, often with equal or zero values in several fields, and mostly check '
     'reading and writing against each other.',
     [L + x for x in ('calibration.c', 'tracking_frame_buf.c', 'parameters.c', 'sortgrid.c', 'orientation.c')],
     [('read_ori, write_ori', L + 'calibration.c'), ('read_targets, write_targets, read_path_frame, write_path_frame',
      L + 'tracking_frame_buf.c'), ('read_*_par', L + 'parameters.c'), ('read_calblock, read_sortgrid_par', L + 'sortgrid.c'),
      ('read_man_ori_fix', L + 'orientation.c')], obs=['files', 'fields of the structures read'],
     technique='value graph of the calls of fscanf, fprintf and fopen, from LLVM IR, against the documented layout (lib/wit/io.c); '
               'and the compiler\'s check of format strings against argument types',
     note=VGN + ' What printf and scanf do with a number is taken for granted.')
prop('C18', 'The refraction lookup table holds the true factors over the whole volume',
     'The lookup table of a camera starts at the camera\'s foot and the lowest height, has nodes every 2 mm, holds in each '
     'node the refraction factor of that radius and height, and reaches beyond the radii at which the rays of all four '
     'image corners meet both height limits. A lookup is the bilinear interpolation of the four nodes around '
     'the point, and 0, so that the factor is computed, for points the table does not cover. The measurement volume is '
     'the bounding box of the corner rays of all cameras at both height limits.',
     ['inputs'], 'all factors and rays; table and volume sizes as in lib/wit/mmtab.c and mmvol.c',
     'Tests look up a few points in the middle of one table, where a wrong cell, a short table or a forgotten corner '
     'changes little or nothing.',
     [L + 'multimed.c'], [('init_mmlut, get_mmf_from_mmlut, volumedimension', L + 'multimed.c')],
     obs=['table', 'factor looked up', 'volume limits'], technique=VGT, note=VGN + ' Ray tracing and the factor itself stand '
     'in as free functions (decided by C08 and C09).')
prop('C19', 'Tracking links admissible candidates only, best first and to one particle each',
     'For every particle of a frame, tracking searches the next frame at the position its history predicts, offers as '
     'links exactly the candidates whose displacement, acceleration and angle are within the tracking parameters, '
     'ranks them by the documented fitness (mean displacement over the largest one, plus relative acceleration and angle, '
     'over the number of views), and links the best. A particle in the next frame is linked to one particle only, the '
     'fitter; links are mutual. New particles are made only when asked for, inside the volume, seen by two cameras, '
     'while there is room. Backward tracking closes gaps by the same rules and never changes existing links. '
     'Frames are read, written and stepped in order.',
     ['inputs', 'histories'], 'all positions, candidates, fitness values and parameters; frames of up to three particles, '
     'as in lib/wit/link.c',
     'Tests track three-frame scenes of one or a few well separated particles: candidates never compete, no limit '
     'is hit, and averages hide single links.',
     [L + 'track.c'], [('track_forward_start, trackcorr_c_loop, trackcorr_c_finish, trackback_c', L + 'track.c')],
     obs=['links of the frames', 'decision lists', 'particles added', 'run statistics'], technique=VGT,
     note=VGN + ' Candidate search, projection, position and angle computation stand in as free functions (decided by C10, C11, '
     'C13 and C20). Loops over particles and candidates are peeled; particle counts are fixed per witness.')
prop('C20', 'Candidates and new particles are assembled from the right cameras and targets',
     'The candidates of a particle are searched in every camera around its projection, in that camera\'s own targets '
     'and search window. Each is listed once, with the number of cameras that see it, most views first, and '
     'the list ends with the end mark. The position of a new particle uses, in each camera, the unused target nearest '
     'to its projection within the documented distance. The new particle is appended with its position, no '
     'links, and mutual references to just those targets.',
     ['inputs'], 'all positions, target coordinates and parameters; lists and camera counts as in lib/wit/find.c',
     'Tests check a single list of candidates and do not look at the particle that is added.',
     [L + 'track.c'], [('sorted_candidates_in_volume, sort_candidates_by_freq, register_closest_neighbs, '
      'assess_new_position, add_particle', L + 'track.c')], obs=['candidate list', 'new particle and its targets'],
     technique=VGT, note=VGN + ' Projection and the pixel search itself stand in as free functions (decided by C10, C11 and C13).')
prop('C21', 'Frames keep cameras, files and time steps apart',
     'A frame is read from, and written to, the files of its own frame number, each camera with its own file and '
     'target list, links only when asked for; any failure is reported. The ring of frames keeps the order in time: a step '
     'forward moves every frame one place, reading replaces only the last and writing takes only the first. A '
     'tracking run keeps what it is given, and derives the link scale and the observed volume from it.',
     ['inputs', 'histories'], 'all frame numbers and contents; 1 to 3 cameras and rings of 2 to 4 frames, as in lib/wit/frames.c',
     'Tests step one ring of fixed length and read frames whose cameras hold similar files.',
     [L + 'tracking_frame_buf.c', L + 'tracking_run.c'], [('frame_init, read_frame, write_frame, fb_*', L + 'tracking_frame_buf.c'),
      ('tr_new', L + 'tracking_run.c')], obs=['frames of the ring', 'files read and written', 'fields of the run'],
     technique=VGT, note=VGN + ' Reading and writing of single files stand in as stubs (decided by C17).')
prop('C22', 'Correspondences are consistent matches, best first, each target used once',
     'Candidates of a target are exactly the targets near its epipolar line, on the sensor and similar enough in size and '
     'brightness, each with its distance and score. A match of four, three or two cameras is reported exactly when the '
     'candidates agree in every pair of its cameras and the mean score exceeds the limit; the best matches are taken first '
     'and no target is used twice, a match of more cameras coming before those of fewer. Sorting puts records in order and '
     'keeps each one whole.',
     ['inputs'], 'all scores, distances and limits; 1 to 4 targets in each camera, 1 to 4 candidates of each, 2 to 4 cameras; '
     'all orders of up to 5 records to be sorted, as in lib/wit/corr.c, corr2.c, fcand.c, sort.c',
     'Tests match one synthetic scene without ambiguous candidates.',
     [L + 'correspondences.c', L + 'epi.c'], [('correspondences, match_pairs, *_camera_matching, consistent_pair_matching, take_best_candidates, quicksort_*', L + 'correspondences.c'),
      ('find_candidate', L + 'epi.c')], obs=['matches reported', 'candidates and their scores', 'records sorted'],
     technique=VGT, note=VGN + ' Distortion stands in as an unknown function (decided by C07).')
prop('C23', 'Calibration sets up and applies the adjustment it describes',
     'The detected point given to a known point is the nearest one to its projection, whole, within the search radius and '
     'near the sensor. Orientation uses exactly the points found and asked for, each with the deviation between its '
     'corrected position and its projection and the derivatives over the parameter of each column; it holds what is not '
     'to be adjusted, adds the solution to each parameter asked for until the solution is small, moves the glass '
     'in its own plane only, and reports residuals and deviations. Orientation by hand clears the distortion and '
     'changes only the exterior orientation. The dumbbell measure weighs ray distance and length error.',
     ['inputs'], 'all coordinates, parameters, flags and radii; 1 to 6 points, one or two rounds of adjustment with a solution '
     'given, two to four dumbbell targets, as in lib/wit/orient.c, raw.c, sortgrid.c',
     'Tests run one calibration to convergence on clean data, where a wrong column, flag or point selection still converges.',
     [L + 'orientation.c', L + 'sortgrid.c'], [('orient, raw_orient, num_deriv_exterior, weighted_dumbbell_precision', L + 'orientation.c'),
      ('sortgrid, nearest_neighbour_pix', L + 'sortgrid.c')], obs=['equations set up', 'parameters changed', 'points selected'],
     technique=VGT, note=VGN + ' Projection, distortion and the linear algebra stand in as unknown functions (decided by C05, C07, C09, C11).')
prop('C24', 'Targets are the connected bright spots of the image, measured as documented',
     'Detection (targ_rec, peak_fit) finds a target for every spot that grows from a local maximum above the threshold of '
     'that camera: to the four neighbours that are above the threshold, not brighter by more than the discontinuity '
     'and not beside a pixel that is. Every pixel counts for one target only. A target is reported exactly when its '
     'pixel count, extensions (limits included) and grey value sum (above its limit) are as asked for, with these '
     'numbers, its grey value weighted centre plus half a pixel, its place in the list and no particle number; only the search window '
     'is looked at and the image is not changed. peak_fit unites touching spots less than two pixels apart or without a dark pixel between.',
     ['inputs'], 'all grey values, thresholds and limits for the spot shapes of lib/wit/seg.c (one to three pixels), and the images '
     'of lib/wit/segscene.c; all labels in check_touch',
     'Tests hold four small images with one blob each and one set of limits.',
     [L + 'segmentation.c'], [('targ_rec, peak_fit, check_touch', L + 'segmentation.c')], obs=['targets reported', 'number of targets'],
     technique=VGT, note=VGN + ' Larger shapes are decided for the given grey values only; spots cut by the window border are not decided.')
prop('N01', 'Particle centres are accurate to a fraction of a pixel',
     'For images of particles of the supported sizes and noise levels the detected centre deviates from the true one by less than a tenth of a pixel.',
     ['inputs'], 'all particle images', 'Tests hold a handful of synthetic spots.', [L + 'segmentation.c'], [('targ_rec, peak_fit', L + 'segmentation.c')],
     na='A statistical statement about image content (spot shape, noise); the weighting formula itself is decided where it can be, its accuracy needs measurements.')
prop('N02', 'Calibration converges to the true camera from a usable first guess',
     'Starting within the documented distance of the true orientation, calibration converges and its residuals are those of the best fit.',
     ['inputs'], 'all first guesses and point sets', 'Tests start from a few perturbed orientations.', [L + 'orientation.c'], [('orient, raw_orient', L + 'orientation.c')],
     na='The basin of convergence of a nonlinear least-squares iteration cannot be bounded from the source; the equations it sets up are decided (C23).')
prop('N03', 'Results are accurate to a few rounding errors',
     'Every geometric result computed in double precision is within a documented tolerance of the exact value.',
     ['inputs'], 'all cameras and points', 'Tests compare with a tolerance at sampled inputs.', [L + 'multimed.c', L + 'ray_tracing.c', L + 'trafo.c'], [('projection and ray tracing', L + 'multimed.c')],
     na='Needs error bounds over unbounded inputs with cancellation; the identities are decided over exact real arithmetic only.')
prop('N04', 'The lookup table is accurate enough between its nodes',
     'The interpolated refraction factor deviates from the computed one by less than the documented tolerance everywhere in the table.',
     ['inputs'], 'all cameras and table cells', 'Tests sample a few positions.', [L + 'multimed.c'], [('get_mmf_from_mmlut', L + 'multimed.c')],
     na='Needs a bound of the curvature of the factor, the limit of an iteration; that nodes hold true factors and lookup is bilinear is decided (C18).')
prop('N05', 'Tracked paths belong to one physical particle each',
     'Within the documented density and motion limits the links chosen are the true ones.',
     ['histories'], 'all particle motions', 'Tests track a few synthetic particles.', [L + 'track.c'], [('trackcorr_c_loop', L + 'track.c')],
     na='The greedy assignment has no such guarantee in the source; that it applies its own criteria is decided (C19, C20).')
prop('N06', 'Every true correspondence lies within the epipolar band',
     'For every point of the observed volume its image in the second camera lies within the search band around the epipolar line.',
     ['inputs'], 'all points and cameras', 'Tests use nearly flat scenes.', [L + 'epi.c'], [('epi_mm, find_candidate', L + 'epi.c')],
     na='The line is a chord of a refracted curve; its deviation depends on the user tolerance and geometry, and needs numerical bounds.')
prop('N07', 'Processing keeps up with image acquisition',
     'Detection, correspondence and tracking of a frame take a bounded time per particle.',
     ['inputs'], 'all particle densities', 'Tests do not measure time.', [L + 'track.c', L + 'correspondences.c'], [('tracking and correspondences', L + 'track.c')],
     na='Wall-clock time depends on data and machine; termination of every loop is decided (C16).')
