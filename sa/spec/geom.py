"""Reference definitions of the geometric helpers (analysed, never run)."""
from typing import List

import numpy as np


def s_norm(v):
    return np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)


def s_dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def s_cross(a, b):
    return np.array([a[1] * b[2] - b[1] * a[2], a[2] * b[0] - b[2] * a[0], a[0] * b[1] - b[0] * a[1]])


def s_add(a, b):
    return np.array([a[0] + b[0], a[1] + b[1], a[2] + b[2]])


def s_sub(a, b):
    return np.array([a[0] - b[0], a[1] - b[1], a[2] - b[2]])


def s_mul(a, s):
    return np.array([a[0] * s, a[1] * s, a[2] * s])


def s_diff_norm(a, b):
    return s_norm(s_sub(a, b))


def s_unit(v):
    return s_mul(v, 1 / s_norm(v))


def s_move(glob_z, vertex, direct):
    t = (glob_z - vertex[2]) / direct[2]
    return np.array([vertex[0] + t * direct[0], vertex[1] + t * direct[1], glob_z])


def s_predict(a, b):
    return s_sub(s_mul(b, 2), a)


def s_mid(v1, d1, v2, d2):
    """midpoint of the common perpendicular of two rays and its length"""
    n = s_cross(d1, d2)
    nn = s_dot(n, n)
    w = s_sub(v2, v1)
    t1 = s_dot(s_cross(w, d2), n) / nn
    t2 = s_dot(s_cross(w, d1), n) / nn
    p1 = s_add(v1, s_mul(d1, t1))
    p2 = s_add(v2, s_mul(d2, t2))
    return s_norm(s_sub(p1, p2)), s_mul(s_add(p1, p2), 0.5)


def s_angle_acc(start, pred, cand):
    v0 = s_sub(pred, start)
    v1 = s_sub(cand, start)
    c = s_dot(v0, v1) / (s_norm(v0) * s_norm(v1))
    return np.array([200 / np.pi * np.arccos(c), s_norm(s_sub(cand, pred))])


def s_volume(xmax, xmin, ymax, ymin, z_max, z_min, vpar: VolumePar, cpar: ControlPar, cal: List[Calibration]):
    lo = min(vpar.z_min_lay[0], vpar.z_min_lay[1])
    hi = max(vpar.z_max_lay[0], vpar.z_max_lay[1])
    for c in range(cpar.num_cams):
        for cx in (0.0, cpar.imx):
            for cy in (0.0, cpar.imy):
                x, y = pixel_to_metric(cx, cy, cpar)
                x, y = dist_to_flat(x, y, cal[c])
                pos, a = ray_tracing(x, y, cal[c], cpar.mm)
                for z in (lo, hi):
                    gx = pos[0] + (z - pos[2]) * a[0] / a[2]
                    gy = pos[1] + (z - pos[2]) * a[1] / a[2]
                    xmax = max(xmax, gx)
                    xmin = min(xmin, gx)
                    ymax = max(ymax, gy)
                    ymin = min(ymin, gy)
    return xmax, xmin, ymax, ymin, hi, lo
