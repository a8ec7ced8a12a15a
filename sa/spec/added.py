"""Reference definitions for particles added during tracking."""
import numpy as np


def s_assess(pos, frm: Frame, run: TrackingRun, n):
    count = 0
    out = []
    ind = []
    for c in range(n):
        at = point_to_pixel(pos, run.cal[c], run.cpar)
        p = np.array([-1] * MAX_CANDS)
        k = candsearch_in_pix_rest(frm.targets[c], frm.num_targets[c], at[0], at[1], ADD_PART, ADD_PART, ADD_PART, ADD_PART, p, run.cpar)
        fx = COORD_UNUSED
        fy = COORD_UNUSED
        if k > 0:
            t = frm.targets[c][p[0]]
            m = pixel_to_metric(t.x, t.y, run.cpar)
            f = dist_to_flat(m[0], m[1], run.cal[c], run.flatten_tol)
            fx = f[0]
            fy = f[1]
            count = count + 1
        out.append(fx)
        out.append(fy)
        ind.append(p[0])
    return count, out, ind
