#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": ["openptv_python/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every detected target is a real bright spot, measured exactly and within limits",
  "Every target that detection reports is one spot: a set of pixels connected edge to edge, all inside the searched area and brighter than the camera's grey threshold, grown from a local maximum along grey values that rise by no more than the discontinuity. Its pixel count, its extents in x and y and its total grey value all respect the limits that were set (limits included, the grey sum strictly above its minimum). The reported pixel count, extents, grey sum above threshold and grey-weighted centre are exactly those of that set of pixels.",
  ["inputs", "configurations"], "every grey image, every combination of threshold, discontinuity, size limits, camera number and search window",
  "The tests look at three hand-made images with one or two square blobs and mostly count targets; no test has touching spots, ridges, plateaus, limits hit exactly, or a spot cut by the window.",
  ["segmentation.py"], [("seed scan, region growing and the acceptance limits", "segmentation.py: fast_targ_rec, targ_rec, target_recognition")],
  ["return value of target_recognition / targ_rec"])
p("C02", "Detection misses no spot, counts none twice and looks only inside the window",
  "Every spot of the searched area that satisfies the limits is reported, and no pixel belongs to two reported targets. Targets are numbered 0, 1, 2, ... in scan order of their peaks (row by row, left to right), carry no correspondence, and the same image always gives the same list. Detection does not change the image, and no target contains a pixel outside the search window.",
  ["inputs", "configurations", "histories"], "every grey image, limits and search window, and repeated detection on the same image",
  "Tests assert the number of targets of a few fixed images; neither completeness, order, uniqueness nor window clipping is asserted for any other image.",
  ["segmentation.py"], [("scan order, marking of visited pixels, window clamp, numbering", "segmentation.py: fast_targ_rec, targ_rec, target_recognition")],
  ["return value of target_recognition", "the image array after the call"])
p("C03", "The search along an epipolar line finds exactly the qualifying targets",
  "For any line and any list of targets sorted by x, the candidate search returns exactly those targets that are closer to the line than the tolerance, within the line's end points widened by the tolerance, and similar enough in pixel count, extents and brightness; none if the line lies off the sensor. This holds wherever the targets lie and however many there are in the list (from none to the maximum of a frame), in list order up to the fixed maximum number of candidates. Each candidate comes with its distance from the line and a rating that grows with similarity and brightness.",
  ["inputs"], "every x-sorted target list of 0..20480 entries, every line (vertical, horizontal, reversed, degenerate, off the sensor), tolerance and similarity limits",
  "Tests use one list of a few targets and two lines; the start of the search depends on the number of targets through a truncated binary search, which only a quantification over list lengths reaches.",
  ["find_candidate.py"], [("truncated binary search and the widened window", "find_candidate.py: find_start_point, find_start_point_binary, find_candidate"), ("similarity limits and rating", "find_candidate.py: find_candidate, quality_ratio")],
  ["return value of find_candidate"])
p("C04", "Candidate lists cover every pair of cameras and every target",
  "After pairing, for every two cameras (lower number first) and every target of the first there is a list that names this target, and whose entries are exactly the targets of the second camera that qualify along that target's epipolar line, each with its distance and rating. Lists never contain targets of another camera or another target's candidates, whatever the numbers of targets per camera, including none.",
  ["inputs", "configurations"], "2 to 4 cameras, every number of targets per camera, every volume and calibration",
  "The tests check the counts of candidates for one symmetric four-camera scene with 16 points; lists of other sizes, empty cameras and the content of the lists are not examined.",
  ["correspondences.py", "epi.py", "find_candidate.py"], [("loop over camera pairs and targets", "correspondences.py: match_pairs"), ("line end points from the volume", "epi.py: epi_mm"), ("lookup of the target behind a sorted coordinate", "correspondences.py: match_pairs; find_candidate.py: find_candidate")],
  ["the adjacency lists filled by match_pairs"])
p("C05", "Every match is supported by each pair of its targets and rated well enough",
  "Every match of four, three or two cameras consists of targets of which each two are candidates of one another in the pair lists; its rating (summed candidate ratings over summed distances) exceeds the required minimum. A two-camera match is only made when the second camera offered exactly one candidate for the first target.",
  ["inputs", "configurations"], "every set of candidate lists for 2 to 4 cameras, with any number of candidates, ties and partly empty lists",
  "Tests feed candidate lists in which every target has exactly its own partner; lists with several, missing or contradictory candidates never occur.",
  ["correspondences.py"], [("quadruplet, triplet and pair construction", "correspondences.py: four_camera_matching, three_camera_matching, consistent_pair_matching"), ("minimum rating", "correspondences.py: correspondences")],
  ["return values of the matching functions", "return value of correspondences and py_correspondences"])
p("C06", "No target is in two matches; larger and better matches go first",
  "In any result each target of each camera belongs to at most one match. Four-camera matches are chosen before three-camera ones and those before pairs, and within a size by descending rating, so a possible match is left out only if one of its targets is in a chosen match that is larger or rated at least as well. When only matches in all cameras are wanted, no smaller ones are returned.",
  ["inputs", "configurations"], "every set of candidate lists for 2 to 4 cameras, every overlap of possible matches, and both settings of the all-cameras flag",
  "The selection test has one list of a few tuples without chained conflicts, and the end-to-end tests have no ambiguous targets at all.",
  ["correspondences.py"], [("greedy selection over usage marks", "correspondences.py: take_best_candidates"), ("usage marks respected by the smaller cliques", "correspondences.py: three_camera_matching, consistent_pair_matching"), ("order of the stages and the flag", "correspondences.py: correspondences")],
  ["return value of correspondences / py_correspondences", "the usage marks"],
  [("tusage", "which targets are already in a match", "correspondences.py: safely_allocate_target_usage_marks")])
p("C07", "The correspondence result names the right targets, camera by camera",
  "The identifiers and image positions returned for a match are those of the detected targets themselves, in every camera, even though matching works on lists in another order; cameras that do not see the match are marked as such (no identifier, unused position). Each matched target carries the running number of its match, unmatched ones none, and the counts per match size add up to the reported total. A single camera returns each of its targets once.",
  ["inputs", "configurations"], "1 to 4 cameras, every permutation between detection order and sorted order, every mix of match sizes",
  "In the tests the sorted order equals the detection order or only quadruplets exist, so a mix-up of the two numberings or of the blocks per size is not noticed.",
  ["correspondences.py", "tracking_frame_buf.py"], [("mapping of sorted positions back to targets", "correspondences.py: py_correspondences, correspondences, single_cam_correspondences"), ("sorted coordinate lists", "tracking_frame_buf.py: match_coords")],
  ["return value of py_correspondences", "tnr of the targets afterwards"])
p("C08", "Searching a pixel window finds the nearest targets in it",
  "For any list of targets sorted by y and any window around a centre in the image, the search for linked candidates returns the nearest (at most four, nearest first) targets with a correspondence that lie strictly inside the window clipped to the image; the search among the remaining targets returns the nearest one without correspondence. This holds for every number and arrangement of targets, and nothing is returned when the centre is off the image or the window is empty.",
  ["inputs"], "every y-sorted target list of 0..20480 entries with any mixture of used and unused targets, every centre and window, equal distances included",
  "One test searches a list of a handful of targets; the start of the search depends on the list length and on where the targets lie.",
  ["track.py"], [("truncated binary search and insertion of the four nearest", "track.py: candsearch_in_pix"), ("nearest unused target", "track.py: candsearch_in_pix_rest"), ("registration per camera", "track.py: register_closest_neighbs")],
  ["return values of candsearch_in_pix, candsearch_in_pix_rest, register_closest_neighbs"])
p("C09", "Candidates found by several cameras are merged without loss",
  "Merging the per-camera candidate lists of a search yields each found particle once, together with the number of cameras that found it and which ones, ordered by descending number of cameras. Every particle found by at least two cameras is in the merged list, with the right count; nothing that no camera found ever appears.",
  ["inputs"], "every content of the per-camera candidate lists for 1 to 4 cameras, including repetitions and empty slots",
  "The test merges one hand-written list with a single repeated particle; the merging is a chain of swaps whose errors need particular repetition patterns.",
  ["track.py"], [("frequency count, compaction and sorting", "track.py: sort_candidates_by_freq"), ("collection over cameras", "track.py: sorted_candidates_in_volume")],
  ["the list after sort_candidates_by_freq and its return value", "links of a tracking step"])
p("C10", "Links between frames are mutual and one to one",
  "After a tracking step and in the written result files, a particle that has a successor is the predecessor of exactly that particle, and the other way round: no particle is the successor of two others, and every link points to a particle that exists in the neighbouring frame. A particle without a partner is marked as having none.",
  ["inputs", "histories", "configurations"], "every sequence of frames with any particles, targets and limits, forward tracking followed or not by backward tracking",
  "The tests count links of a few fixed sequences in which particles hardly compete; the mutual consistency of the links is never checked, least of all after conflicts or added particles.",
  ["track.py", "tracking_frame_buf.py"], [("link creation and conflict resolution", "track.py: trackcorr_c_loop, trackback_c"), ("writing of the links", "tracking_frame_buf.py: write_path_frame")],
  ["ptv_is files after forward and backward tracking", "path_info in the frame buffer"])
p("C11", "When particles compete for a successor, the best rated candidate wins",
  "Among its admissible successors a particle prefers the one with the best (lowest) rating, built from displacement, acceleration and turning angle relative to their limits and divided by the number of cameras that support it (a successor that nothing in the frame after it continues counts only if no other does, the first such by number of supporting cameras). If several particles prefer the same successor, the best rated one gets it, an equal one does not displace an earlier one, and the losers end up without a successor.",
  ["inputs", "histories"], "every set of competing particles and every order in which they are processed",
  "The fixtures have at most one admissible successor per particle in nearly all cases; no test has three particles competing for one, or a later better competitor.",
  ["track.py"], [("rating of candidates", "track.py: trackcorr_c_loop"), ("sorting and conflict resolution", "track.py: sort, trackcorr_c_loop")],
  ["ptv_is files", "path_info finaldecis, next_frame"])
p("C12", "Links satisfy the motion limits, and admissible continuations are found",
  "A link made by forward tracking always joins two positions that the particle could have travelled between: the candidate lies in the search area predicted from the particle's own motion in at least two cameras (or is the best supported one), and together with the following frame, or with the particle's previous motion, displacement per axis, acceleration and angle are within the configured limits (strictly; a very small acceleration excuses the angle). Conversely, a particle with an admissible continuation and no competitor is always linked.",
  ["inputs", "configurations", "histories"], "every particle configuration over four frames, first and later frames of a sequence, every velocity, acceleration and angle limit",
  "Tests run three fixed data sets and compare the number of links; which limits are applied to which pair of positions, and prediction from the right history, are not asserted.",
  ["track.py"], [("prediction, search window, limit checks", "track.py: trackcorr_c_loop, searchquader, angle_acc, pos3d_in_bounds, search_volume_center_moving, sorted_candidates_in_volume")],
  ["ptv_is files", "return values of searchquader, angle_acc, pos3d_in_bounds"])
p("C13", "Added particles are built from free targets and disturb nothing else",
  "With adding switched on, tracking creates a new particle only where at least two cameras have an unused target next to the predicted position, inside the observed volume and the motion limits; the observed volume of a run reaches as far as the images see at its depth limits and contains the limits it was given. The new particle owns exactly those targets, which become used by it; it is appended, and all earlier particles keep their positions, targets and links. With adding switched off, no frame ever gains a particle or changes a target's assignment.",
  ["inputs", "histories", "configurations"], "every set of unused targets and lost particles, 1 to 4 cameras, adding on and off",
  "One fixture adds one particle and the test counts it; ownership of targets and integrity of the other particles are not checked.",
  ["track.py"], [("search for unused targets", "track.py: assess_new_position, candsearch_in_pix_rest"), ("appending the particle", "track.py: add_particle"), ("volume and motion conditions", "track.py: trackcorr_c_loop")],
  ["rt_is, ptv_is and targets files", "correspond, targets and num_parts of the frames"])
p("C14", "A tracking run treats every frame of the sequence exactly once and in order",
  "A forward run over frames first..last writes the results of every frame of that range exactly once and of no other frame, each holding the particles of the input of the same frame number (plus added ones). Each step links frames s and s+1 and looks ahead and back only at the frames next to them; frames that do not exist beyond the end contribute nothing. The run counts every particle of every step once, and every link it keeps. A run set up from parameter text files is the run its values describe.",
  ["configurations", "histories"], "every first and last frame number (any length of at least two), empty frames anywhere, any number of particles per frame",
  "Tests run fixed sequences and look at totals; an off-by-one in the frame window leaves most links intact.",
  ["track.py", "tracking_frame_buf.py", "tracking_run.py"], [("priming, rotation and refilling of the four-frame window", "track.py: track_forward_start, trackcorr_c_loop, trackcorr_c_finish; tracking_frame_buf.py: fb_next, read_frame_at_end, write_frame_from_start")],
  ["files written per frame", "content of the frame buffer between steps"])
p("C15", "Backward tracking only closes gaps and keeps what forward tracking found",
  "Tracking backwards changes nothing but links: no existing link is removed or redirected, no particle appears, vanishes or moves. It adds a link only from a particle that has a successor but no predecessor to a particle of the previous frame that had no successor, within the motion limits, and records it at both ends; if the best rated such candidate is free to the end, the gap is closed with it. Afterwards the files of every frame of the sequence hold its own particles, and no other file has changed. It returns the mean number of particles with a predecessor over the frames between the first and the last.",
  ["inputs", "histories", "configurations"], "every forward result over four or more frames, with any gaps",
  "The only backward test runs on a sequence where it has nothing to do and asserts a link count.",
  ["track.py", "tracking_frame_buf.py"], [("backward loop, link conditions, window handling", "track.py: trackback_c"), ("reading and writing linked frames", "tracking_frame_buf.py: read_path_frame, write_path_frame")],
  ["rt_is/ptv_is files before and after trackback_c"])
p("C16", "Frame result files give back what was written",
  "Writing the particles of a frame and reading them again returns the same number of particles in the same order, with the same positions (to the three decimals of the file), target numbers per camera, links in both directions and, if a priority file is used, priority. This holds for any number of particles including none, with and without link and priority files, and no matter what was stored under that name or read before.",
  ["inputs", "histories"], "every list of particles and links, every combination of files used, overwriting of longer and shorter files",
  "Tests write and read back one or two frames with a few particles; empty frames, overwriting, and missing optional files are not covered.",
  ["tracking_frame_buf.py"], [("writing and reading of the three files", "tracking_frame_buf.py: write_path_frame, read_path_frame, Frame.read, Frame.write")],
  ["files on disk", "return value of read_path_frame, state of Frame after read"])
p("C17", "Target files give back what was written",
  "Writing the targets of a camera and reading them again returns the same targets in the same order: number, position to four decimals, pixel counts, grey sum and correspondence. This holds for any number of targets including none, any positive frame number and any name pattern, with a field for the number or without, and files of different cameras and frames never affect each other.",
  ["inputs", "histories"], "every target list and frame number, several cameras and frames in one directory, overwriting",
  "Tests write two targets to one file; large values, empty lists, overwriting and the mapping from camera and frame to file are not exercised.",
  ["tracking_frame_buf.py"], [("writing and reading of target files", "tracking_frame_buf.py: write_targets, read_targets"), ("per-camera file names", "tracking_frame_buf.py: Frame.read, Frame.write")],
  ["files on disk", "return value of read_targets"])
p("C18", "Missing or damaged input files are reported, never turned into wrong data",
  "Reading a target file that is missing, truncated or has a row of the wrong length raises an error; a missing particle file gives an empty frame and no error. Missing tracking, sequence or calibration files raise an error, missing target-recognition or orientation parameter files yield the documented defaults. In no case are invented or partly filled targets or particles returned. A write of which a file has no place to go to returns False and disturbs no other file; a complete one returns True.",
  ["fault_sequences", "inputs"], "every file kind, missing, cut after any line, or with a row of the wrong length",
  "Tests try single missing files; truncation at each place and malformed rows are not enumerated.",
  ["tracking_frame_buf.py", "parameters.py", "calibration.py"], [("row check and error propagation", "tracking_frame_buf.py: read_targets, read_path_frame"), ("file checks", "parameters.py: from_file methods; calibration.py: Calibration.from_file")],
  ["exceptions and return values of the read functions"])
p("C19", "Parameter text files are read field by field into the right place",
  "Each value of a parameter text file ends up in the field that its line stands for, for every number of cameras, and nothing else is changed: control, sequence, tracking, volume, target recognition, orientation, calibration, multi-plane, examine and version parameters. For the kinds that can be written, writing and reading again gives equal parameters.",
  ["inputs", "configurations"], "every assignment of distinct values to the fields, 1 to 4 cameras",
  "Tests read one fixture per kind in which many neighbouring values are equal or default, so swapped fields go unnoticed.",
  ["parameters.py"], [("positional reading of the files", "parameters.py: from_file of each class, read_* functions"), ("writing", "parameters.py: write_target_par, PftVersionPar.write")],
  ["objects returned by the read functions"])
p("C20", "YAML and dictionary conversion and comparison cover every field",
  "Converting a parameter object to a dictionary or YAML file and back gives an object with equal values in every field, including the media inside the control parameters, and leaves the source and the dictionary unchanged. Comparing two parameter objects yields equality exactly when all fields of that kind agree, and conversion for tracking keeps every field.",
  ["inputs"], "every parameter class and every single field in which two objects may differ",
  "Tests compare default objects or change one field; a field left out of a comparison or conversion is only found by varying each of them.",
  ["parameters.py"], [("conversion", "parameters.py: Parameters, ControlPar.from_dict, from_yaml, convert_track_par_to_tuple"), ("comparison", "parameters.py: compare_* functions, ControlPar equality")],
  ["return values"])
p("C21", "Calibrations survive writing, reading and comparison",
  "Writing a calibration and reading it again gives the same position, angles, interior orientation, glass vector and distortion parameters to the precision of the files, with a rotation matrix that belongs to the angles. Comparing calibrations yields equality exactly when none of these parts differ, setters change only their own part and getters return it, and the rotation matrix always is the orthogonal matrix of the current angles after they were set. Copying a calibration onto another makes the two equal in every part and leaves them independent of one another.",
  ["inputs", "histories"], "every sequence of setting, writing, reading and comparing calibrations",
  "The tests read fixtures and write one calibration; differences in single parts, sequences of setters and the link between angles and matrix are not enumerated.",
  ["calibration.py"], [("file formats", "calibration.py: write_ori, Calibration.from_file"), ("setters and getters", "calibration.py: Calibration"), ("comparison", "calibration.py: compare_calibration and the functions it uses"), ("matrix from angles", "calibration.py: rotation_matrix")],
  ["files on disk", "fields of the object, comparison results"])
p("C22", "Sorting a grid assigns to each known point the nearest detected dot, if any",
  "Sorting detected dots to known points gives one entry per known point, in their order: a copy of the nearest detected dot inside the search window around the point's projection, numbered with the point's index, or an unused entry if there is none or the projection is off the image by more than the search radius. The detected dots themselves are not changed, so the result does not depend on the order of the known points.",
  ["inputs"], "every set of dots and known points, shared nearest dots, points off the image, every search radius",
  "The tests sort one synthetic grid whose dots lie exactly at the projections; missing, displaced or shared dots do not occur.",
  ["sortgrid.py"], [("projection, window test and nearest dot", "sortgrid.py: sortgrid, nearest_neighbour_pix")],
  ["return value of sortgrid", "the dots after the call"])
p("C23", "Orientation uses only chosen points and changes only chosen parameters",
  "A calibration is updated by orientation only when the iteration converges; otherwise it is left exactly as it was. Interior, distortion and glass parameters whose flag is off keep their values, and the result depends only on the points selected by the use flag that carry a valid dot: changing or removing any other point's dot changes nothing. Residuals are reported for exactly the points that were used. External calibration changes position and angles and drops the distortion, and keeps the interior and the glass.",
  ["configurations", "inputs", "fault_sequences"], "every combination of flags and of available dots, converging and failing runs",
  "The tests run a handful of flag settings on perfect data and check convergence; they do not check what must not change, nor failing runs.",
  ["orientation.py"], [("selection of points and of parameters", "orientation.py: orient, is_used_in_orientation, full_calibration"), ("work on a copy", "orientation.py: orient"), ("external calibration from few points", "orientation.py: external_calibration, raw_orient")],
  ["the calibration after the call", "return values of orient and full_calibration"])
p("C24", "A position comes from all cameras that see the point and from no others",
  "The reconstructed position of a point is the average, over all pairs of cameras that see it, of the midpoints of the shortest segment between their rays, and the convergence measure is the average length of these segments. Cameras that do not see the point have no influence, the order of cameras does not matter, points are reconstructed independently of one another, and a point seen by fewer than two cameras gets no position. The quality measure for dumbbells is the average convergence measure of all points plus the weight times the average relative deviation of the distance in each successive pair from the given length.",
  ["inputs", "configurations"], "1 to 4 cameras, every subset of cameras seeing each point, any number of points",
  "Tests reconstruct a few points seen by all cameras; subsets of cameras, several points at once and permutations are not covered.",
  ["orientation.py"], [("midpoints and averaging", "orientation.py: skew_midpoint, point_position"), ("several points", "orientation.py: multi_cam_point_positions, point_positions, single_cam_point_positions"), ("dumbbell measure", "orientation.py: weighted_dumbbell_precision")],
  ["return values"])
p("C25", "Rays and projections obey refraction and agree with each other",
  "A ray traced from an image point leaves in the plane of incidence, meets Snell's law at both surfaces of the glass, starts on the surface of the glass that faces the points, and continues straight without a change of medium; the projection of any point of that ray in front of the camera gives the image point back. The projection of a position does not depend on other positions or on how often it is computed.",
  ["inputs", "configurations"], "every camera position and orientation facing the glass, image point and glass thickness, and refractive indices of glass and liquid not below that of the air",
  "The tests compare a few stored numbers for one camera; the laws and the mutual consistency of the two directions are not stated for other inputs.",
  ["ray_tracing.py", "multimed.py", "imgcoord.py"], [("refraction at both surfaces", "ray_tracing.py: ray_tracing, fast_ray_tracing"), ("radial shift and transformation to the glass", "multimed.py: trans_cam_point, back_trans_point, multimed_r_nlay, fast_multimed_r_nlay"), ("projection", "imgcoord.py: flat_image_coord, img_coord")],
  ["return values"])
p("C26", "Coordinate conversions invert each other and keep targets attached",
  "Converting between pixel and metric coordinates and back, and between distorted and flat coordinates and back, returns the starting point (to numerical accuracy), for arrays as for single points, with y pointing up in metric and down in pixel coordinates. Distortion is Brown's model (three radial and two decentering terms) followed by scale and shear. The list of flat coordinates of a camera holds exactly one entry per target, sorted by x, each with the number and the flat coordinates of its own target.",
  ["inputs", "configurations"], "every image size, pixel size, principal point, distortion parameters and target list",
  "Tests check a few points with default parameters; asymmetric sensors, combined distortion and unsorted target lists with other numbers are rare or absent.",
  ["trafo.py", "tracking_frame_buf.py"], [("pixel/metric conversion", "trafo.py: pixel_to_metric, metric_to_pixel and the array forms"), ("distortion and its iterative inverse", "trafo.py: distort_brown_affine, correct_brown_affine, flat_to_dist, dist_to_flat"), ("sorted coordinate list", "tracking_frame_buf.py: match_coords, matched_coords_as_arrays, get_by_pnrs")],
  ["return values"])
p("C27", "The refraction lookup table interpolates its own cells and nothing else",
  "A lookup in the refraction table inside its range returns the bilinear interpolation of the four table entries around the position, so it reproduces each entry at its own node and lies between the surrounding entries elsewhere. Outside the range it reports that it has no value, and never reads other cells or beyond the table. Making the table again for another volume or a changed camera gives the table of that volume and camera.",
  ["inputs"], "every table size, origin and step and every position: inside, on nodes and edges, and outside in each direction",
  "Two positions are looked up in the tests; borders and the outside in each direction are not.",
  ["multimed.py"], [("cell indices, bounds and interpolation", "multimed.py: get_mmf_from_mmlut, fast_get_mmf_from_mmlut"), ("building of the table", "multimed.py: init_mmlut")],
  ["return value of get_mmf_from_mmlut", "the table built by init_mmlut"])
p("C28", "The measurement volume and epipolar lines are bounded by the volume limits",
  "The measured volume reported for a set of cameras is the smallest box that contains every point in which the rays of the image corners cross the nearest and farthest depth, and the limits it started from; its depth range is the widest of the given layers. An epipolar line starts at the projection of the point of the ray at the near depth and ends at that of the far depth, the depths being interpolated between the layers at the ray's position, and the single-camera position lies on the ray half-way between them. The points of an epipolar curve are the pixel projections of points of the ray equally spaced in depth from the near to the far depth.",
  ["inputs", "configurations"], "1 to 4 cameras, every volume with equal or tilted layers, every image point",
  "Tests compare stored numbers for one camera set-up with untilted layers.",
  ["multimed.py", "epi.py"], [("volume from image corners", "multimed.py: volumedimension"), ("ends of the line", "epi.py: epi_mm, epi_mm_2D, epipolar_curve"), ("move along a ray", "multimed.py: move_along_ray")],
  ["return values"])
p("C29", "The frame buffer is a faithful sliding window",
  "Stepping the buffer forwards or backwards shifts every frame by exactly one place and loses none; stepping there and back restores it, and as many steps as the buffer is long do the same. Reading replaces only the last frame by the content of the files of that number, writing stores only the first frame under the given number, and the queue operations return frames in the order in which they were put in, refusing what does not fit.",
  ["histories"], "every sequence of stepping, reading, writing, putting and taking, for every buffer length",
  "The tests perform one short sequence on a buffer of fixed length.",
  ["tracking_frame_buf.py"], [("rotation, reading and writing at the ends, queue", "tracking_frame_buf.py: FrameBufBase, FrameBuf")],
  ["content of the buffer after each operation", "files on disk"])
p("C30", "Separate objects and separate calls do not influence each other",
  "Objects made independently (calibrations, parameters, frames, targets, particles) share no state: changing one, in any order of operations, never changes another, and a new object always has the same default values. Computations do not change the calibrations, parameters, positions or images given to them unless that is their documented effect, so repeating a call gives the same result.",
  ["histories", "inputs"], "every interleaving of creating, changing and using several objects, and repeated calls of each computation",
  "Each test makes fresh objects and calls a function once, so shared defaults, aliasing between inputs and results, and hidden changes of arguments stay invisible.",
  ["calibration.py", "parameters.py", "tracking_frame_buf.py", "multimed.py", "imgcoord.py", "epi.py", "orientation.py"], [("default values per object", "calibration.py: Calibration.__init__; parameters.py: field defaults; tracking_frame_buf.py: Pathinfo, Frame"), ("copies of inputs", "orientation.py: orient; imgcoord.py: flat_image_coord; multimed.py: move_along_ray; track.py: search functions")],
  ["fields of all objects after each operation"])
p("C31", "Orientation from exact observations recovers the camera",
  "Given dots that lie exactly at the projections of enough well-spread known points and a start close to the true camera, orientation converges and returns the true position and angles (and those parameters whose flags are on), with residuals close to zero and small error estimates. Where it converges on imprecise dots, the result is the least squares optimum (flagged parameters counting as observed at their start values), the residuals are those at the result and the overall error estimate is theirs. The outcome does not depend on how often or after which other calibrations it is run.",
  ["inputs", "configurations"], "every camera facing the glass, spread of points, small start offset and admissible flag combination",
  "The tests run a few flag settings on one camera and accept large residuals or only check that a value is returned.",
  ["orientation.py"], [("derivatives and least squares iteration", "orientation.py: orient, num_deriv_exterior"), ("coarse orientation from few points", "orientation.py: raw_orient, external_calibration")],
  ["the calibration after orient, raw_orient, external_calibration", "return value of orient"])
p("C32", "Accessors and comparisons of data objects cover exactly their fields",
  "Parameter objects (control, media, sequence, tracking, volume, target recognition), targets and path data behave as records: a new object has the default values, each constructor argument and each setter changes exactly the fields it names (two-field setters both, in that order) and each getter returns exactly the current values of its fields; layers of unequal number are refused without effect. Two objects compare equal exactly when all their fields are equal, also after any history of changes. Link candidates are kept in the order registered, resetting links leaves position and candidates. A frame shows the positions of its particles in order, and for a camera the position of each particle's target or NaN; sorting targets by y or matches by rating keeps every element.",
  ["histories", "inputs"], "every history of making, setting, reading, comparing and registering on several objects of each kind, every frame content",
  "Tests set and read a few fields of one object of some kinds; setters that reach the wrong field, defaults shared or comparisons that skip a field only show over histories of several objects.",
  ["parameters.py", "tracking_frame_buf.py"], [("setters, getters, defaults", "parameters.py: MultimediaPar, SequencePar, TrackPar, VolumePar, ControlPar, TargetPar; tracking_frame_buf.py: Target, Pathinfo"), ("comparison", "parameters.py: compare_*; tracking_frame_buf.py: __eq__, compare_targets, compare_path_info, compare_corres"), ("views and sorting", "tracking_frame_buf.py: Frame.positions, Frame.target_positions_for_camera, sort_target_y, quicksort_n_tupel")],
  ["attributes and return values after each operation"])
p("C33", "Prepared images are exactly the pixels combined with their local means",
  "Preparing an 8-bit image gives an 8-bit image of the same size in which each pixel is the bitwise union of the pixel with the mean of its window (outside the image is black, means rounded down along rows and columns); a window of one pixel leaves the image as it is. The second filter, if asked for, is the 3x3 mean or the 3x3 filter of the file applied to that result, with black outside; other pixel types and missing or malformed filter files are refused. The single filters, differences (never below black), masks (black exactly where the mask is black) and copies do what they name. The given images are never changed.",
  ["inputs", "configurations"], "every 8-bit image of any size, half window, second filter and filter file",
  "The only test looks at one 5x5 image and its inner 3x3 pixels.",
  ["image_processing.py"], [("local mean, union, second filter", "image_processing.py: prepare_image, preprocess_image"), ("single steps", "image_processing.py: filter_3, lowpass_3, fast_box_blur, subtract_img, subtract_mask, copy_images")],
  ["return values", "the arrays given"])
p("C34", "Calibration blocks and the points chosen in them are read completely",
  "Reading a calibration block file gives every point of it, with its number and place, in the order of the file, and no point at all if the file is missing or any line of it is malformed. The points chosen for a camera in the manual orientation file (four places in the block for each camera, on one line or on separate lines) are exactly those points in the order chosen; nothing is returned if one of them is not in the block, is chosen twice, or the block has fewer than four points. The sorting radius is the one in its file, or the default if there is none.",
  ["inputs", "configurations"], "every block file, every choice of points for 1 to 4 cameras",
  "Tests count the points of one block file; the choice of points is not tested.",
  ["sortgrid.py", "orientation.py"], [("parsing of blocks and radius", "sortgrid.py: read_calblock, read_sortgrid_par"), ("choice of points", "orientation.py: read_man_ori_fix, read_calblock")],
  ["return values"])
p("C35", "Well-separated particles are followed from the images to trajectories",
  "Take particles that move steadily through a tank seen by 2 to 4 calibrated cameras, well apart in all images and from each other's paths, with no images of different particles that could be confused. Then, when the images are processed as users do, stage by stage through the program's own files (detection, target files, conversion, correspondences, positions, frame files, tracking): every image of a particle gives exactly one target where it is and nothing else is detected; every particle seen by two or more cameras is matched once, with exactly its own targets, and its targets carry its number; it is placed where it is; targets, matches and positions in the files stay as they were found; no link joins different particles, and each particle is linked from one frame to the next wherever it is seen by two or more cameras in both and either also in the frame after or already linked from the frame before, whatever the frame numbers and the appearance and disappearance of others.",
  ["inputs", "histories", "configurations"], "every well-separated scene, camera set-up with or without glass and distortion, frame range",
  "Tests run stages one by one on stored data of one or two experiments; whether the stages fit together (numbering, order, units, files) is nowhere checked end to end against known particles.",
  ["segmentation.py", "correspondences.py", "tracking_frame_buf.py", "orientation.py", "track.py", "tracking_run.py", "parameters.py", "calibration.py"], [("detection to targets", "segmentation.py: target_recognition; tracking_frame_buf.py: write_targets, read_targets"), ("matching and placing", "correspondences.py: py_correspondences; tracking_frame_buf.py: match_coords, get_by_pnrs; orientation.py: point_positions"), ("following", "track.py: track_forward_start, trackcorr_c_loop, trackcorr_c_finish")],
  ["return values of the stages", "target, frame and link files"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
