"""Reference definitions of coordinate conversions (analysed, never run)."""
import numpy as np


def s_p2m(x, y, p: ControlPar):
    return (x - p.imx / 2) * p.pix_x, (p.imy / 2 - y) * p.pix_y


def s_m2p(x, y, p: ControlPar):
    return x / p.pix_x + p.imx / 2, p.imy / 2 - y / p.pix_y


def s_pix_round(x, y, p: ControlPar):
    a, b = pixel_to_metric(x, y, p)
    return metric_to_pixel(a, b, p)


def s_flat_to_dist(x, y, cal: Calibration):
    return distort_brown_affine(x + cal.int_par.xh, y + cal.int_par.yh, cal.added_par)


def s_dist_to_flat(x, y, cal: Calibration, tol):
    a, b = correct_brown_affine(x, y, cal.added_par, tol)
    return a - cal.int_par.xh, b - cal.int_par.yh
