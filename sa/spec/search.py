"""Reference: searching detections in an image window during tracking."""
import numpy as np


def s_window(tg, j, cx, cy, dl, dr, du, dd, cpar: ControlPar):
    """detection j lies strictly inside the window clipped to the image"""
    return (max(cx - dl, 0) < tg[j].x and tg[j].x < min(cx + dr, cpar.imx)
            and max(cy - du, 0) < tg[j].y and tg[j].y < min(cy + dd, cpar.imy))


def s_nearest_four(tg, n, cx, cy, dl, dr, du, dd, cpar: ControlPar):
    p = [-1, -1, -1, -1]
    if cx >= 0 and cx <= cpar.imx and cy >= 0 and cy <= cpar.imy:
        for j in range(n):
            if tg[j].tnr != -1 and s_window(tg, j, cx, cy, dl, dr, du, dd, cpar):
                before = 0
                for m in range(n):
                    if m != j and tg[m].tnr != -1 and s_window(tg, m, cx, cy, dl, dr, du, dd, cpar):
                        if (tg[m].x - cx) ** 2 + (tg[m].y - cy) ** 2 < (tg[j].x - cx) ** 2 + (tg[j].y - cy) ** 2:
                            before += 1
                for k in range(4):
                    if before == k:
                        p[k] = j
    return p


def s_nearest_rest(tg, n, cx, cy, dl, dr, du, dd, old, cpar: ControlPar):
    best = old
    found = False
    d = 0
    if cx >= 0 and cx <= cpar.imx and cy >= 0 and cy <= cpar.imy:
        for j in range(n):
            if tg[j].tnr == -1 and s_window(tg, j, cx, cy, dl, dr, du, dd, cpar):
                e = (tg[j].x - cx) ** 2 + (tg[j].y - cy) ** 2
                if not found or e < d:
                    found = True
                    d = e
                    best = j
    return best


def s_quader(point, tpar: TrackParTuple, cpar: ControlPar, cal):
    """distances of the borders of the window from the projected centre: right, left, down, up"""
    out = []
    for cam in range(len(cal)):
        c = point_to_pixel(point, cal[cam], cpar)
        xr = 0
        xl = cpar.imx
        yd = 0
        yu = cpar.imy
        for a in range(2):
            for b in range(2):
                for e in range(2):
                    q = point_to_pixel(np.array([point[0] + (tpar.dvxmax if a else tpar.dvxmin),
                                                 point[1] + (tpar.dvymax if b else tpar.dvymin),
                                                 point[2] + (tpar.dvzmax if e else tpar.dvzmin)]), cal[cam], cpar)
                    xl = min(xl, q[0])
                    xr = max(xr, q[0])
                    yu = min(yu, q[1])
                    yd = max(yd, q[1])
        xl = max(xl, 0)
        yu = max(yu, 0)
        xr = min(xr, cpar.imx)
        yd = min(yd, cpar.imy)
        out.append((xr - c[0], c[0] - xl, yd - c[1], c[1] - yu))
    return out
