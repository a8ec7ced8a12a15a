"""Reference definitions for the layered medium and the lookup table (analysed, never run)."""
import numpy as np


def s_layers(Q, n1, n2, n3, d, z0, Z, n):
    """radius in the outer medium at which the ray starting towards radius Q ends, by Snell's law in every layer"""
    b1 = np.arctan(Q / (z0 - Z))
    zout = Z
    for i in range(1, n):
        zout = zout + d[i]
    b3 = np.arcsin(np.sin(b1) * n1 / n3)
    rb = (z0 - d[0]) * np.tan(b1) - zout * np.tan(b3)
    for i in range(n):
        rb = rb + d[i] * np.tan(np.arcsin(np.sin(b1) * n1 / n2[i]))
    return rb


def s_lut(data, R, S):
    i = int(R)
    j = int(S)
    fr = R - i
    fs = S - j
    return (data[i][j] * (1 - fr) * (1 - fs) + data[i][j + 1] * (1 - fr) * fs
            + data[i + 1][j] * fr * (1 - fs) + data[i + 1][j + 1] * fr * fs)


def s_mmf_choice(cal: Calibration, mm: MultimediaPar, pos):
    return get_mmf_from_mmlut(cal, pos)


def s_mmf_direct(cal: Calibration, mm: MultimediaPar, pos):
    return fast_multimed_r_nlay(mm.nlay, mm.n1, np.array(mm.n2), mm.n3, np.array(mm.d),
                                cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0, pos)


def s_multimed_nlay(cal: Calibration, mm: MultimediaPar, pos):
    f = multimed_r_nlay(cal, mm, pos)
    return cal.ext_par.x0 + (pos[0] - cal.ext_par.x0) * f, cal.ext_par.y0 + (pos[1] - cal.ext_par.y0) * f


def s_camera_depth(cal: Calibration):
    g = cal.glass_par
    gl = np.sqrt(g[0] * g[0] + g[1] * g[1] + g[2] * g[2])
    return (cal.ext_par.x0 * g[0] + cal.ext_par.y0 * g[1] + cal.ext_par.z0 * g[2]) / gl - gl
