"""Reference definitions for point positioning (analysed, never run)."""
import numpy as np


def s_point(T, vis, mm: MultimediaPar, cals: List[Calibration]):
    n = 0
    dist = 0.0
    x = 0.0
    y = 0.0
    z = 0.0
    for a in range(len(vis)):
        for b in range(a + 1, len(vis)):
            va, da = ray_tracing(T[vis[a]][0], T[vis[a]][1], cals[vis[a]], mm)
            vb, db = ray_tracing(T[vis[b]][0], T[vis[b]][1], cals[vis[b]], mm)
            d, m = skew_midpoint(va, da, vb, db)
            n = n + 1
            dist = dist + d
            x = x + m[0]
            y = y + m[1]
            z = z + m[2]
    return dist / n, x / n, y / n, z / n


def s_pp(T, n, mm: MultimediaPar, cals: List[Calibration]):
    d, p = point_position(T, n, mm, cals)
    return p[0], p[1], p[2], d


def s_single(T, mm: MultimediaPar, cals: List[Calibration], vpar: VolumePar):
    p = epi_mm_2D(T[0][0], T[0][1], cals[0], mm, vpar)
    return p[0], p[1], p[2]


def s_dumbbell(T, n, mm: MultimediaPar, cals: List[Calibration], length, weight):
    """mean ray distance plus weighted mean relative length error over the pairs (0,1), (2,3), ..."""
    d = 0.0
    e = 0.0
    for j in range(len(T) // 2):
        k = 2 * j
        d0, p = point_position(T[k], n, mm, cals)
        d1, q = point_position(T[k + 1], n, mm, cals)
        d = d + d0 + d1
        r = np.sqrt((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 + (p[2] - q[2]) ** 2)
        if r > length:
            e = e + 1 - length / r
        else:
            e = e + 1 - r / length
    return d / len(T) + weight * e / (len(T) / 2)
