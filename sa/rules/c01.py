"""C01: routines leave their arguments unchanged except for the documented ones."""
import re
from ..rulekit import *

TECHNIQUE = ("effect analysis: every store and every mutating call of each public routine and of all the helpers it calls is resolved to the object "
             "it changes; the objects reachable from a parameter may only be changed where the routine is documented to update them")
NOTE = "Calls between the routines of the table are summarised by their own table entry; everything else is inlined. Two names for one object in the caller's data are not considered."

# routines without any effect on their arguments; they are also used as summaries when their callers are analysed
PURE = {
    "multimed": "multimed_nlay multimed_r_nlay fast_multimed_r_nlay trans_cam_point fast_trans_cam_point back_trans_point fast_back_trans_point "
                "move_along_ray get_mmf_from_mmlut fast_get_mmf_from_mmlut volumedimension",
    "ray_tracing": "ray_tracing fast_ray_tracing",
    "epi": "epi_mm epi_mm_2D epipolar_curve sort_coord2d_x sort_coord2d_y",
    "imgcoord": "img_coord flat_image_coord image_coordinates flat_image_coordinates",
    "find_candidate": "find_candidate quality_ratio find_start_point find_start_point_binary",
    "trafo": "pixel_to_metric fast_pixel_to_metric arr_pixel_to_metric metric_to_pixel fast_metric_to_pixel arr_metric_to_pixel "
             "fast_arr_metric_to_pixel distort_brown_affine correct_brown_affine flat_to_dist dist_to_flat",
    "vec_utils": "vec_norm vec_set norm vec_copy vec_subt vec_add vec_scalar_mul vec_diff_norm vec_dot vec_cross vec_cmp unit_vector vec_init",
    "orientation": "is_singular skew_midpoint point_position weighted_dumbbell_precision is_used_for_orientation read_man_ori_fix read_calblock "
                   "dumbbell_target_func match_detection_to_ref point_positions single_cam_point_positions multi_cam_point_positions",
    "sortgrid": "sortgrid nearest_neighbour_pix read_sortgrid_par read_calblock",
    "calibration": "write_ori read_ori compare_exterior compare_interior compare_glass compare_calibration compare_addpar read_calibration "
                   "write_calibration Calibration.from_file Calibration.write Calibration.get_pos Calibration.get_angles "
                   "Calibration.get_rotation_matrix Calibration.get_primary_point Calibration.get_radial_distortion Calibration.get_decentering "
                   "Calibration.get_affine Calibration.get_glass_vec",
    "image_processing": "filter_3 lowpass_3 fast_box_blur subtract_mask copy_images prepare_image preprocess_image fast_box_blur_numba",
    "segmentation": "targ_rec fast_targ_rec peak_fit peak_fit_new target_recognition",
    "track": "candsearch_in_pix search_volume_center_moving pos3d_in_bounds angle_acc searchquader point_to_pixel sorted_candidates_in_volume assess_new_position",
    "tracking_frame_buf": "compare_corres sort_target_y read_targets write_targets compare_targets compare_path_info Frame.write Frame.positions "
                          "Frame.target_positions_for_camera Frame.__repr__ FrameBuf.write_frame_from_start read_path_frame write_path_frame "
                          "matched_coords_as_arrays get_by_pnrs Target.pos Target.sum_grey_value Target.count_pixels Target.__eq__ Pathinfo.__eq__",
    "parameters": "compare_mm_np compare_sequence_par compare_track_par convert_track_par_to_tuple compare_volume_par compare_control_par "
                  "compare_target_par write_target_par Parameters.to_yaml Parameters.from_dict Parameters.to_dict ControlPar.from_dict "
                  "ControlPar.to_dict MultimediaPar.get_n1 MultimediaPar.get_n2 MultimediaPar.get_n3 MultimediaPar.get_d MultimediaPar.get_nlay "
                  "MultimediaPar.__str__ SequencePar.get_img_base_name SequencePar.get_first SequencePar.get_last PftVersionPar.write "
                  "ControlPar.get_image_size ControlPar.get_pixel_size ControlPar.get_chfield ControlPar.get_multimedia_par "
                  "ControlPar.get_num_cams ControlPar.get_hp_flag ControlPar.get_allCam_flag ControlPar.get_tiff_flag "
                  "ControlPar.get_multimedia_params",
    "tracking_run": "tr_new",
}
# documented updates: paths starting at a parameter
UPDATES = {
    "calibration": {
        "rotation_matrix": "ext.dm", "Calibration.increment_attribute": "self", "Calibration.update_rotation_matrix": "self.ext_par",
        "Calibration.set_rotation_matrix": "self.ext_par", "Calibration.set_pos": "self.ext_par", "Calibration.set_angles": "self.ext_par",
        "Calibration.set_primary_point": "self.int_par", "Calibration.set_radial_distortion": "self.added_par",
        "Calibration.set_decentering": "self.added_par", "Calibration.set_affine_distortion": "self.added_par",
        "Calibration.set_glass_vec": "self.glass_par", "Calibration.set_added_par": "self.added_par", "Calibration.copy": "new_copy",
    },
    "correspondences": {
        "safely_allocate_target_usage_marks": "", "safely_allocate_adjacency_lists": "",
        "four_camera_matching": "scratch", "three_camera_matching": "scratch tusage", "consistent_pair_matching": "scratch tusage",
        "match_pairs": "corr_lists", "take_best_candidates": "src dst tusage", "py_correspondences": "img_pts[][].tnr",
        "correspondences": "frm.targets[][].tnr match_counts", "single_cam_correspondences": "img_pts[].tnr",
    },
    "image_processing": {"subtract_img": "img_new"},
    "multimed": {"init_mmlut": "cal.mmlut cal.mmlut_data"},
    "orientation": {
        "num_deriv_exterior": "cal.ext_par cal.int_par", "orient": "cal sigmabeta", "raw_orient": "cal", "external_calibration": "cal",
        "full_calibration": "cal",
    },
    "segmentation": {"check_touch": "tpeak"},
    "track": {
        "reset_foundpix_array": "arr", "copy_foundpix_array": "dest", "register_closest_neighbs": "reg", "predict": "output",
        "candsearch_in_pix_rest": "p", "sort_candidates_by_freq": "foundpix", "sort": "a b",
        "add_particle": "frm", "track_forward_start": "tr.fb", "trackcorr_c_loop": "run_info.fb run_info.npart run_info.nlinks",
        "trackcorr_c_finish": "run_info.fb run_info.npart run_info.nlinks", "trackback_c": "run_info.fb run_info.npart run_info.nlinks",
    },
    "tracking_frame_buf": {"match_coords": "targs[].pnr", "quicksort_n_tupel": "arr", "Frame.read": "self",
                           "FrameBufBase.push": "self", "FrameBufBase.pop": "self", "FrameBufBase.fb_next": "self", "FrameBufBase.fb_prev": "self",
                           "FrameBuf.read_frame_at_end": "self", "FrameBuf.disk_read_frame_at_end": "self",
                           "FrameBuf.__init__": "self", "Frame.__init__": "self"},
    "tracking_run": {"TrackingRun.__init__": "self vpar.x_lay vpar.z_min_lay vpar.z_max_lay"},
}


def bases(t):
    if t.op == "phi":
        return bases(t.args[1]) | bases(t.args[2])
    r = root(t)
    return bases(r) if r.op == "phi" else {r}


def paths(t, d=0):
    """paths of a location that may be one of several"""
    if t.op == "phi" and d < 6:
        return paths(t.args[1], d + 1) | paths(t.args[2], d + 1)
    if t.op == "sel":
        k = t.args[1]
        s = "." + k.args[0] if k.op == "str" else "[]"
        return {p + s for p in paths(t.args[0], d)}
    if t.op in ("row", "snap"):
        return {p + "[]" if t.op == "row" else p for p in paths(t.args[0], d)}
    return {path(t)}


def noop(e):
    """stores the value that is there already"""
    v = e.val
    return v.op == "sel" and v.args[0] is e.base and v.args[1] is e.key


def effects(r):
    """(path, event) of every change to something reachable from a parameter"""
    f = r.func
    ps = set(f.params) | ({f.vararg} if f.vararg else set())
    for e in r.events:
        if e.kind == "store":
            if noop(e):
                continue
            k = e.key
            s = "." + k.args[0] if k.op == "str" else "[]"
        elif e.kind == "mutate":
            s = ""
        else:
            continue
        for p in paths(e.base):
            if re.split(r"[.\[]", p)[0] in ps and bases(e.base) & {mk("sym", x) for x in ps}:
                yield p + s, e
        for b in bases(e.base):
            if b.op in ("glob", "cls"):
                yield "global " + show(b) + s, e


def allowed(p, spec):
    for a in spec.split():
        if p == a or p.startswith(a + ".") or p.startswith(a + "["):
            return True
    last = p.split(".")[-1] if "." in p else ""
    return last.startswith("_")


def check(ctx):
    ctx.rule("For each public routine all events that change an object (attribute and item stores, in-place operators, mutating methods, output "
             "arguments of library functions) are collected through all helpers; one whose object is reached from a parameter that the routine "
             "is not documented to update, or from a module or class, is a violation.")
    pure = {}
    for m, s in PURE.items():
        for q in s.split():
            pure[(m, q)] = ""
    names = tuple(sorted({q for (m, q) in pure if "." not in q and m not in ("vec_utils", "parameters", "calibration", "sortgrid", "tracking_run")
                          and q not in ("point_positions",)}))
    todo = dict(pure)
    for m, d in UPDATES.items():
        for q, s in d.items():
            todo[(m, q)] = s
    for (m, q), spec in sorted(todo.items()):
        f = ctx.pkg.func(m, q)
        if f is None:
            ctx.unk("anchor", "%s.%s" % (m, q), "not found")
            continue
        if any(re.split(r"[.\[]", a)[0] not in f.params for a in spec.split()):
            ctx.unk("anchor", where(f), "parameters renamed")
            continue
        r = ctx.run(m, q, opaque=tuple(n for n in names if n != f.name), key=("eff",))
        if r is None:
            continue
        seen = set()
        for p, e in effects(r):
            if allowed(p, spec) or p in seen:
                continue
            seen.add(p)
            ctx.bad("effect", e.where if hasattr(e, "where") else where(f), "%s changes %s, which it is not documented to update" % (q, p))
        if not seen:
            ctx.hold("effect", where(f), "changes nothing but %s" % (spec or "its own objects"))
