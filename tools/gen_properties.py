#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["openptv_python/" + f for f in files],
            "mechanism": [{"name": n, "where": "openptv_python/" + w} for n, w in mech],
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": "openptv_python/" + w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)


prop("C01", "Computations leave the objects they are given unchanged",
     "Projecting, ray tracing, coordinate conversion, candidate search, stereo matching of calibration points, "
     "point positioning, epipolar geometry, frame and parameter comparison and writing to files never change the "
     "calibrations, parameters, point arrays, detection lists or images they are given. The only arguments a "
     "routine changes are those it is documented to update.",
     ["inputs", "histories"], "for all inputs and all later uses of the same objects",
     "Tests look at the returned value; an argument that is silently changed only shows in a later computation with the same object.",
     ["imgcoord.py", "multimed.py", "ray_tracing.py", "trafo.py", "epi.py", "find_candidate.py", "sortgrid.py", "orientation.py", "vec_utils.py"],
     [("local copies and freshly allocated results", "multimed.py:move_along_ray, flat_image_coord's private calibration"),
      ("dataclasses.replace in sortgrid", "sortgrid.py:sortgrid")],
     observe=["the argument objects after the call"])

prop("C02", "Objects do not share mutable state",
     "Two calibrations, parameter sets, frames, targets or tracking runs created or copied separately share no "
     "mutable state: changing one never changes another, nor the defaults the next one starts from. Arrays handed "
     "out by getters, and copies, are independent of the object they came from, and setters do not keep the caller's array "
     "(objects handed to a constructor are kept).",
     ["histories", "inputs"], "for all sequences of creations, copies, reads and updates",
     "Tests create an object, use it and drop it; sharing shows only when two live objects are updated in turn.",
     ["calibration.py", "parameters.py", "tracking_frame_buf.py"],
     [("deepcopy of the module level defaults", "calibration.py:Calibration.__init__"),
      ("default_factory of dataclass fields", "parameters.py, tracking_frame_buf.py"),
      ("Calibration.copy and getters copy", "calibration.py"),
      ("one Frame per buffer slot", "tracking_frame_buf.py:FrameBufBase/FrameBuf")])

prop("C03", "The rotation matrix always is the rotation of the current angles",
     "A camera's rotation matrix always equals Rx(omega)*Ry(phi)*Rz(kappa) of its current angles, which is a proper "
     "rotation for every triple of angles. Whenever a public routine that sets, increments, reads or adjusts the angles "
     "returns, the matrix has been brought up to date, also when the adjustment did not converge; and the adjustments never project a "
     "point with a matrix that does not belong to the angles at that time.",
     ["inputs", "histories"], "for all angles and all sequences of angle updates",
     "Tests check the matrix for a few angles right after setting them; a stale matrix appears only in update sequences they do not run.",
     ["calibration.py", "orientation.py"],
     [("rotation_matrix", "calibration.py:rotation_matrix"), ("set_angles, increment_attribute, from_file", "calibration.py:Calibration"),
      ("update_rotation_matrix calls in the adjustment loops", "orientation.py:orient, raw_orient, num_deriv_exterior")],
     state=[("dm", "3x3 rotation matrix", "calibration.py:exterior_dtype")])

prop("C04", "Calibration files read back as the calibration that was written",
     "Every number of a calibration (position, angles, principal point and distance, glass vector, distortion and "
     "affine parameters) is written to and read from its own place in the orientation and added-parameter files, so "
     "that reading what was written restores every value to the written precision. Writing reports success exactly when both requested files were written, and a missing orientation file is an error.",
     ["inputs", "fault_sequences"], "for all calibrations and file names, with and without an added-parameter file",
     "The tests round-trip one or two calibrations whose equal or zero entries hide swapped fields.",
     ["calibration.py"],
     [("write_ori field order", "calibration.py:write_ori"), ("from_file slices", "calibration.py:Calibration.from_file")])

prop("C05", "Tracking result files read back as the frame that was written",
     "Target files, correspondence files, path files and the files of added particles hold every field of every "
     "record in its own column, with a count that matches the number of records, and each of the readers takes each "
     "field from the column the writer puts it in (points numbered from one in files, added path information in its own file). "
     "File names contain the frame number and each kind of file is read from and written to its own base name.",
     ["inputs", "histories"], "for all frames, counts (zero included), frame numbers and base names",
     "The tests read a few fixed files and round-trip tiny frames; they do not cover every field, empty frames or optional files.",
     ["tracking_frame_buf.py"],
     [("read_targets/write_targets", "tracking_frame_buf.py"), ("read_path_frame/write_path_frame", "tracking_frame_buf.py"),
      ("Frame.read/Frame.write", "tracking_frame_buf.py:Frame")])

prop("C06", "Every parameter is taken from and stored in its own place",
     "Each value of every parameter file is read into the field that the file format assigns to that line, and the "
     "writers and the YAML and dictionary conversions store each field under its own name, so that reading back gives "
     "every field its own value. Derived parameter views (compiled-code tuples, named getters and setters) carry each field unchanged.",
     ["inputs", "configurations"], "for all parameter values and all parameter kinds",
     "Tests use one file per kind in which many values coincide, so a swapped, dropped or defaulted field goes unseen.",
     ["parameters.py"],
     [("from_file of each parameter class", "parameters.py"), ("to_dict/from_dict, to_yaml/from_yaml", "parameters.py"),
      ("convert_track_par_to_tuple", "parameters.py")])

prop("C07", "Comparison reports equal only when every field is equal",
     "Comparing two calibrations, parameter sets, targets, path records, correspondences or frames reports them equal "
     "exactly when all the values they carry are equal (rotation matrices within a small tolerance): a difference in any single "
     "field makes the result unequal, and two objects with equal values compare equal.",
     ["inputs"], "for every pair of objects and every single field in which they differ",
     "The tests change one or two fields; a field left out of the comparison is noticed only by a pair that differs in just that field.",
     ["calibration.py", "parameters.py", "tracking_frame_buf.py"],
     [("compare_* functions", "calibration.py, parameters.py, tracking_frame_buf.py"), ("__eq__ methods", "parameters.py, tracking_frame_buf.py")])

prop("C08", "Pixel and metric coordinates, and distortion and correction, are inverses",
     "Converting pixel to metric coordinates and back is the identity for every image size and pixel size, with the origin in the "
     "image centre and the vertical axis flipped, and the single-point and array variants agree. Any point on which the iterative removal "
     "of lens distortion settles is mapped back by the distortion model to the point it started from, and conversion between flat and distorted "
     "coordinates shifts by the principal point on the flat side only.",
     ["inputs", "configurations"], "for all points, image sizes, pixel sizes, distortion and affine parameters",
     "Tests use square pixels, one image size and small or zero distortion and shear, with tolerances wider than the terms in question.",
     ["trafo.py"],
     [("pixel_to_metric, metric_to_pixel and array variants", "trafo.py"), ("distort_brown_affine/correct_brown_affine", "trafo.py"),
      ("flat_to_dist/dist_to_flat", "trafo.py")])

prop("C09", "Image coordinates of different kinds are never mixed",
     "Pixel, distorted metric and flat metric image coordinates are kept apart everywhere: pixel values are converted before they "
     "meet metric ones, distortion is removed before rays are traced and applied before pixels are computed, x values are never used "
     "for y, and detections are compared with projections of the same kind.",
     ["inputs", "configurations"], "for every path from a detection or 3D point to a coordinate used by the package",
     "With small distortion and a centred principal point, as in the test data, mixed kinds differ by less than the tolerances.",
     ["imgcoord.py", "multimed.py", "epi.py", "orientation.py", "sortgrid.py", "track.py", "correspondences.py", "trafo.py"],
     [("conversion chains pixel_to_metric, dist_to_flat, ray_tracing and back", "multimed.py:init_mmlut, volumedimension; track.py:trackcorr_c_loop; orientation.py:orient")])

prop("C10", "Each camera's data is used only with that camera's calibration",
     "Whenever data of a camera (detections, image positions, candidate lists, file names, usage marks) meets a calibration, a target list or "
     "another table kept per camera, both belong to the same camera. This holds for every number of cameras from one to four.",
     ["inputs", "configurations"], "for all camera counts and all cameras",
     "The test set-ups have few, often symmetric cameras with the same distortion, so exchanged camera indices often give the same answer.",
     ["track.py", "correspondences.py", "multimed.py", "orientation.py", "tracking_frame_buf.py", "epi.py"],
     [("parallel indexing by camera", "track.py:point_to_pixel, searchquader, sorted_candidates_in_volume, assess_new_position, add_particle"),
      ("match_pairs", "correspondences.py:match_pairs"), ("point_position", "orientation.py:point_position")])

prop("C11", "Detected spots satisfy the configured limits and share no pixels",
     "A spot is reported only if its pixel count, width and height lie within the configured minimum and maximum and its grey-value sum reaches "
     "the configured minimum, each limit being compared with its own quantity and the threshold being the one of its camera; every pixel of the "
     "spot is above that threshold and no pixel is counted in two spots. Its reported position is the grey-value weighted centre plus half a pixel and its reported size figures are those that were checked.",
     ["inputs", "configurations"], "for all images, thresholds and detection parameters",
     "The tests count spots in a few small images and never probe a limit or two touching spots.",
     ["segmentation.py"],
     [("flood fill that clears each pixel it takes", "segmentation.py:fast_targ_rec"), ("limit tests before a target is added", "segmentation.py:fast_targ_rec"),
      ("peak_fit limits", "segmentation.py:peak_fit")])

prop("C12", "Detection never reads outside the image or the given search area",
     "The connected-component spot finder accesses only pixels inside the image array, whatever the search window, and examines for new spots only pixels within the search window. "
     "The window given, or without one the whole image, is what is searched. It is clipped to the image, so detections near any border or in an image smaller than configured cannot read or alter unrelated memory.",
     ["inputs", "configurations"], "for all image sizes and windows, also windows reaching beyond the image",
     "The compiled loops do no bounds checks: an access one pixel outside returns garbage silently and no test asserts on it.",
     ["segmentation.py"],
     [("window clipping", "segmentation.py:targ_rec, fast_targ_rec"), ("neighbour bounds test", "segmentation.py:fast_targ_rec")])

prop("C13", "Epipolar candidates are exactly the detections inside the tolerance band",
     "A detection is offered as a match candidate only if it lies within the tolerance of the epipolar line and of the ends of its segment, and if "
     "its pixel count, width and height ratios and its grey-value sum all pass the configured thresholds; no more candidates are recorded than the table holds. "
     "Each candidate is recorded with its own number, its own distance to the line and its own similarity score.",
     ["inputs", "configurations"], "for all epipolar segments (vertical ones included), detections and criteria",
     "The tests use one nearly horizontal segment and a dozen detections with equal properties.",
     ["find_candidate.py", "epi.py", "correspondences.py"],
     [("find_candidate", "find_candidate.py:find_candidate"), ("match_pairs", "correspondences.py:match_pairs")])

prop("C14", "Correspondences never use a detection twice and agree pairwise",
     "A set of corresponding detections is accepted only if every pair of its members was found to be a mutual candidate, and only while none of its "
     "members already belongs to another accepted set; each accepted set marks all its members as used. Sets are tried by descending number of cameras and within one number by descending "
     "score, sets below the configured score are dropped, and the returned count and point numbering equal the number of accepted sets.",
     ["inputs", "configurations"], "for all candidate tables, camera counts and detection numbers",
     "The tests match five noiseless points in two to four cameras, where candidates never compete.",
     ["correspondences.py"],
     [("consistency tests in the matching loops", "correspondences.py:four_camera_matching, three_camera_matching, consistent_pair_matching"),
      ("usage marks", "correspondences.py:take_best_candidates, correspondences")])

prop("C15", "Missing entries are never used as data",
     "A marker for a missing target, candidate, link or coordinate is never used as an index, coordinate or link: every "
     "use of a possibly missing entry comes after a test for the marker of that kind, and missing entries are always written "
     "with the marker that the tests look for.",
     ["inputs", "histories"], "for all frames with cameras that do not see a point, lost links or missing candidates",
     "Python accepts a negative index and silently picks the last element; the test frames rarely contain missing entries.",
     ["track.py", "tracking_frame_buf.py", "correspondences.py", "orientation.py", "sortgrid.py", "constants.py"],
     [("comparisons with the unused markers", "track.py:register_closest_neighbs, assess_new_position, trackcorr_c_loop; tracking_frame_buf.py:Frame; sortgrid.py:sortgrid; orientation.py:point_position")],
     state=[("TR_UNUSED, CORRES_NONE, PREV_NONE, NEXT_NONE, PT_UNUSED, COORD_UNUSED", "markers of missing entries", "constants.py")])

prop("C16", "Calibration points get the nearest detection within the radius",
     "A calibration point whose projection falls in the image (widened by the search radius) is matched to the detection closest to that projection among "
     "those strictly within the search radius in both directions, and to none if there is no such detection. A match carries the detection's own data with the calibration point's number, stands at the calibration point's position in the result, and unmatched points are marked as unused.",
     ["inputs", "configurations"], "for all calibration blocks, detections, radii and image sizes",
     "Tests use a single well separated grid; ties, borders, and several detections inside the radius do not occur.",
     ["sortgrid.py"],
     [("sortgrid", "sortgrid.py:sortgrid"), ("nearest_neighbour_pix", "sortgrid.py:nearest_neighbour_pix")])

prop("C17", "Links are accepted only within the velocity and acceleration limits",
     "A particle is linked to a candidate or to a newly added particle only when the displacement lies within the configured velocity limits on each axis, "
     "and the acceleration and angle change lie below their limits (or the acceleration below a tenth of its limit), each quantity being compared with its own limit and computed from the positions in temporal order. "
     "The link's quality combines displacement, acceleration and angle, each relative to its own limit.",
     ["inputs", "configurations", "histories"], "for all trajectories and tracking parameters, forward and backward",
     "Tests compare total link counts on a few recorded sequences; a limit that is dropped or swapped rarely changes them.",
     ["track.py"],
     [("pos3d_in_bounds and angle_acc before register_link_candidate", "track.py:trackcorr_c_loop, trackback_c"),
      ("pos3d_in_bounds", "track.py:pos3d_in_bounds"), ("angle_acc", "track.py:angle_acc")])

prop("C18", "A particle keeps at most one link per direction, and the better one wins",
     "After linking, each particle has at most one successor and one predecessor and the two ends name each other: a candidate already claimed by another particle is "
     "taken over only when the new link has the better quality, and then the former owner's link is removed. The candidates of a particle are "
     "ordered by quality with their targets, and the best one is used.",
     ["inputs", "histories"], "for all candidate conflicts between particles in a frame",
     "Conflicts over the same target hardly occur in the sparse test sequences, and only totals are asserted.",
     ["track.py"],
     [("conflict resolution after candidate search", "track.py:trackcorr_c_loop, trackback_c"), ("sort", "track.py:sort")])

prop("C19", "Each slot of the frame buffer holds the time step it stands for",
     "While a sequence is tracked, the buffer's slots always hold consecutive time steps: advancing moves every frame by one slot, the next "
     "frame read enters at the far end with the number that follows the one before it, and a frame is written under its own number after it has left the active "
     "window. Forward and backward tracking visit every step of the sequence exactly once, no slot keeps a frame of the past in place of one that does not exist, and each "
     "camera's targets are read from and written to that camera's files.",
     ["histories", "configurations"], "for all sequence ranges and buffer lengths",
     "Tests run one or two short sequences, and check totals only; an off-by-one in the last frames changes no asserted number.",
     ["tracking_frame_buf.py", "track.py", "tracking_run.py"],
     [("fb_next/fb_prev, read_frame_at_end, write_frame_from_start", "tracking_frame_buf.py:FrameBuf"),
      ("step arithmetic", "track.py:track_forward_start, trackcorr_c_loop, trackcorr_c_finish, trackback_c")])

prop("C20", "Particles are added only when seen by two cameras inside the volume",
     "A particle is added during tracking only if adding is asked for in the tracking parameters and at least two cameras see an unused detection at the predicted place, its position comes from exactly those "
     "cameras and lies inside the observed volume on every axis. The added particle gets the new position, refers to the detections it was made from, "
     "starts without links other than the one that created it, each detection used is marked as belonging to it, and the particle count grows by one.",
     ["inputs", "histories"], "for all frames in which particles are added, forward and backward",
     "The tests with particle addition assert totals of one run; wrong bookkeeping of the added particle is invisible in them.",
     ["track.py"],
     [("assess_new_position, add_particle", "track.py"), ("volume checks", "track.py:trackcorr_c_loop, trackback_c")])

prop("C21", "Missing or unwritable files are reported, never silently ignored",
     "Reading a calibration, a parameter file (other than the matching tolerance, which has a documented default) or a frame whose files are missing, and writing a frame or calibration that can not be stored, "
     "is reported to the caller by an exception or a failure result on every path; none of them returns success or default data instead. Tracking stops "
     "with an error rather than continuing past a frame it could not write.",
     ["fault_sequences", "configurations"], "for every file of every kind that may be missing or unwritable",
     "The tests have all files in place; only one or two missing-file cases are exercised.",
     ["calibration.py", "parameters.py", "tracking_frame_buf.py", "track.py"],
     [("exceptions and boolean results of readers and writers", "tracking_frame_buf.py:Frame, FrameBuf; calibration.py; parameters.py; track.py")])

prop("C22", "Calibration changes only the parameters it was asked to adjust",
     "A full calibration changes an interior, distortion or affine parameter only if its flag is set, and the glass vector only if the interface flag is set; each "
     "flag governs its own parameter and each correction is added to the parameter whose derivative produced it. Points left out by their number, "
     "or by the choice of even, odd or third points, do not contribute, and residuals are returned for exactly the points used.",
     ["inputs", "configurations"], "for all 2^11 flag combinations and point selections",
     "Tests run a handful of the flag combinations and only check convergence.",
     ["orientation.py"],
     [("flag tests, weights and update of the parameters", "orientation.py:orient"), ("selection of points", "orientation.py:orient, full_calibration")])

prop("C23", "Probing derivatives and failed calibration leave no trace",
     "Computing the derivatives of a projection returns every parameter it varied to its former value on every path, with the rotation matrix of the "
     "restored angles, and a full calibration that does not converge leaves the calibration it was given as it was. Each derivative is the "
     "change of the projection of its own parameter divided by that parameter's own step.",
     ["inputs", "histories"], "for all points, steps and flag combinations, converging or not",
     "The tests look at converged results only; a residue of one step per iteration is below their tolerances.",
     ["orientation.py"],
     [("increment/decrement pairs", "orientation.py:num_deriv_exterior"), ("glass and principal distance backup", "orientation.py:orient"),
      ("working copy", "orientation.py:orient")])

prop("C24", "Refraction uses every layer's own thickness and index and stays in its table",
     "Wherever light crosses the interface, each layer contributes its own thickness and refractive index, with the outer media in their own places, and air-only set-ups bend nothing. "
     "The refraction lookup table is always refilled for the grid it is stored with, is read only inside that grid with weights that belong to the surrounding nodes, and is bypassed when it does not cover a point.",
     ["inputs", "configurations"], "for all numbers and kinds of layers, camera positions and points, with or without a table",
     "Tests have one layer and look at one point inside the table; the table's edges and reuse for another set-up are not visited.",
     ["multimed.py", "ray_tracing.py", "parameters.py", "imgcoord.py"],
     [("fast_multimed_r_nlay", "multimed.py"), ("fast_ray_tracing", "ray_tracing.py"), ("init_mmlut, fast_get_mmf_from_mmlut", "multimed.py"),
      ("set_layers", "parameters.py:MultimediaPar")])

prop("C25", "Projection and ray tracing implement the stated optical geometry",
     "Projecting a point takes it into the glass frame and back without loss, and images it by the collinearity equations of the camera's rotation, position and "
     "principal distance; tracing a pixel back follows the same rotation, meets the glass planes at their stated distances and is refracted by Snell's law at each of the two interfaces. "
     "Array variants give the same result as the single-point ones.",
     ["inputs", "configurations"], "for all points, camera positions, orientations, glass vectors and media",
     "Tests use a few points with glass planes normal to an axis and mostly one medium, where many terms vanish.",
     ["imgcoord.py", "multimed.py", "ray_tracing.py"],
     [("flat_image_coord", "imgcoord.py"), ("trans_cam_point/back_trans_point", "multimed.py"), ("fast_ray_tracing", "ray_tracing.py")])

prop("C26", "Geometric helpers compute what they are named for",
     "Moving along a ray to a depth gives the point of that ray at that depth; the midpoint of two rays is half way along their common perpendicular and the distance is that perpendicular's length; prediction continues the motion with constant velocity; "
     "vector helpers return the sum, difference, product, norm or unit vector of their own arguments. The volume extents found for the cameras enclose, at both depth limits, every image-corner ray of every camera.",
     ["inputs"], "for all points, rays, vectors and calibrations",
     "Tests evaluate a few vectors, often along axes, where swapped or missing components give the same result.",
     ["vec_utils.py", "multimed.py", "orientation.py", "track.py"],
     [("vector helpers", "vec_utils.py"), ("move_along_ray, volumedimension", "multimed.py"), ("skew_midpoint", "orientation.py"),
      ("search_volume_center_moving, predict", "track.py")])

prop("C27", "Compiled routines call only what can be compiled",
     "Every routine handed to the compiler uses only language features, library functions and other routines that the compiler supports, so that a call never fails at run time because a helper turned into an "
     "interpreted function or an object the compiler does not know.",
     ["programs", "inputs"], "for every compiled routine and every path in it, exercised or not",
     "A routine is compiled at its first call with given types: one that no test calls is never compiled at all.",
     ["vec_utils.py", "multimed.py", "ray_tracing.py", "trafo.py", "segmentation.py", "find_candidate.py", "track.py", "correspondences.py", "calibration.py", "orientation.py", "image_processing.py"],
     [("@njit decorators", "all modules")])

prop("C28", "Reconstructed positions average exactly the rays that see the point",
     "The position of a point is the mean, over every pair of cameras that see it, of the midpoint between their rays, and its convergence measure the mean of their distances; cameras that do not "
     "see the point contribute nothing. Batch positioning returns one row per point, in order, each from that point's own image coordinates, and the dumbbell cost relates each pair of consecutive points to the given length.",
     ["inputs", "configurations"], "for all numbers of cameras, points and visibility patterns",
     "Tests have a single point seen by all cameras, so rows, pairs and missing cameras can not be confused.",
     ["orientation.py"],
     [("point_position", "orientation.py:point_position"), ("point_positions variants", "orientation.py"), ("weighted_dumbbell_precision", "orientation.py")])

prop("C29", "Rounding never turns limiting configurations into undefined numbers",
     "Rays perpendicular to the glass, particles moving straight on or resting, cameras at a point's own depth and points at the image centre give finite results: a square root of a difference from one or an inverse cosine of a normalised product is taken only of a "
     "value clamped to its domain, and a quotient by a distance, length or direction component that can vanish is guarded.",
     ["inputs"], "for all inputs including degenerate ones",
     "The degenerate configurations are single points of the input space; whether rounding oversteps the domain depends on the digits.",
     ["ray_tracing.py", "track.py", "multimed.py", "vec_utils.py", "imgcoord.py"],
     [("clamping and zero guards", "ray_tracing.py:fast_ray_tracing; track.py:angle_acc; multimed.py; vec_utils.py:unit_vector; imgcoord.py:flat_image_coord")])

prop("C30", "Distortion correction and refraction iterations converge for realistic lenses",
     "For lens distortions and media found in practice the iterative removal of distortion and the iterative refraction computation reach their tolerance before the iteration limit.",
     ["inputs"], "for all realistic parameter ranges",
     "Tests run a few parameter sets; convergence depends on the contraction of the iteration over a continuous range.",
     ["trafo.py", "multimed.py"], [("fixed-point loops", "trafo.py:correct_brown_affine; multimed.py:fast_multimed_r_nlay")])

prop("C31", "Calibration converges to the true camera for good starting values",
     "Given enough well distributed points and a reasonable first guess, the calibration adjustment converges and recovers position, angles and requested parameters to within measurement noise.",
     ["inputs"], "for all well-posed point sets and starting values",
     "Tests converge from one or two starting values.",
     ["orientation.py"], [("Gauss-Markov iteration", "orientation.py:orient, raw_orient")])

prop("C32", "Tracking recovers smooth well-separated trajectories completely",
     "When particles move smoothly, are well separated relative to their displacement and are detected in all cameras, every trajectory is recovered without gaps or exchanges.",
     ["inputs", "histories"], "for all well-separated smooth motions",
     "The tests use three recorded sequences.",
     ["track.py"], [("candidate search and link decision", "track.py:trackcorr_c_loop")])

prop("C33", "The refraction table reproduces the direct computation within its resolution",
     "Inside the grid the interpolated refraction factor differs from the directly computed one by no more than the interpolation error of the chosen grid spacing.",
     ["inputs"], "for all points and media",
     "One point is compared in the tests.",
     ["multimed.py"], [("bilinear interpolation", "multimed.py:fast_get_mmf_from_mmlut")])

prop("C34", "Tracking offers the nearest detections of the projected search volume",
     "In every image the search window of a particle is the extent of the projected box of velocity limits around its position, measured from the projected position and clipped to the image. Of the detections "
     "strictly inside the window around a given image position (window clipped to the image, position inside the image) the search offers the four nearest that belong to particles, nearest first and none twice, "
     "and the search for remaining detections the nearest one that belongs to no particle; where there are fewer, the unused marker stands instead. Each candidate offered is registered with the number of its particle "
     "and with the camera it was seen in. The search for a volume looks in every camera with that camera's own detections, centre and window, and ends its list of candidates with an unused place. (Lists are sorted by y; ties in distance and lists so long that the search starts behind the first detection are excluded.)",
     ["inputs"], "for every list of detections, position, window and image size",
     "Tests search in lists of three and four detections at one position; ranks, borders and kinds of detections vary independently.",
     ["track.py"], [("window", "track.py:searchquader"), ("ranking", "track.py:candsearch_in_pix, candsearch_in_pix_rest"), ("registration", "track.py:register_closest_neighbs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
