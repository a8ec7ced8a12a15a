"""reference definitions: epipolar candidates"""
import math


def s_ratio(a, b):
    if a == 0 and b == 0:
        return 0
    return min(a, b) / max(a, b)


def s_band(x, y, xa, ya, xb, yb):
    """distance of a point from the line through a and b"""
    return abs((yb - ya) * (x - xa) - (xb - xa) * (y - ya)) / math.sqrt((xb - xa) ** 2 + (yb - ya) ** 2)


def s_score(n, nx, ny, sumg, pn, pnx, pny, psumg):
    q = 4 * s_ratio(sumg, psumg) + 2 * s_ratio(n, pn) + s_ratio(nx, pnx) + s_ratio(ny, pny)
    return q * (sumg + psumg)
