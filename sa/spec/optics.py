"""Reference definitions of the projection and of ray tracing (analysed, never run)."""
import numpy as np


def s_trace(x, y, cal: Calibration, mm: MultimediaPar):
    """pixel ray through the two glass planes, refracted by Snell's law in vector form"""
    cc = cal.int_par.cc
    ln = np.sqrt(x * x + y * y + cc * cc)
    dm = cal.ext_par.dm
    g = cal.glass_par
    d = [(dm[i][0] * x + dm[i][1] * y - dm[i][2] * cc) / ln for i in range(3)]
    gl = np.sqrt(g[0] * g[0] + g[1] * g[1] + g[2] * g[2])
    u = [g[0] / gl, g[1] / gl, g[2] / gl]
    c = [cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0]
    # first plane: u.X = gl + d0
    t = (gl + mm.d[0] - (u[0] * c[0] + u[1] * c[1] + u[2] * c[2])) / (u[0] * d[0] + u[1] * d[1] + u[2] * d[2])
    xb = [c[i] + d[i] * t for i in range(3)]
    a = s_refract(d, u, mm.n1 / mm.n2[0])
    # second plane: u.X = gl
    k = mm.d[0] / np.abs(u[0] * a[0] + u[1] * a[1] + u[2] * a[2])
    xx = np.array([xb[i] + a[i] * k for i in range(3)])
    o = s_refract(a, u, mm.n2[0] / mm.n3)
    return xx, np.array(o)


def s_refract(d, u, q):
    n = d[0] * u[0] + d[1] * u[1] + d[2] * u[2]
    t = [(d[i] - n * u[i]) * q for i in range(3)]
    s = np.sqrt(1 - (t[0] * t[0] + t[1] * t[1] + t[2] * t[2]))
    return [t[0] - u[0] * s, t[1] - u[1] * s, t[2] - u[2] * s]


def s_round(cal: Calibration, mm: MultimediaPar, pos):
    """into the glass frame and back"""
    pt, cp, cc, z0 = trans_cam_point(cal.ext_par, mm, cal.glass_par, pos)
    return back_trans_point(pt, mm, cal.glass_par, cp, cc)


def s_glassframe(cal: Calibration, mm: MultimediaPar, pos):
    g = cal.glass_par
    gl = np.sqrt(g[0] * g[0] + g[1] * g[1] + g[2] * g[2])
    u = [g[0] / gl, g[1] / gl, g[2] / gl]
    c = [cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0]
    pz = pos[0] * u[0] + pos[1] * u[1] + pos[2] * u[2] - gl
    cz = c[0] * u[0] + c[1] * u[1] + c[2] * u[2] - gl
    fp = [pos[i] - u[i] * pz for i in range(3)]
    fc = [c[i] - u[i] * cz for i in range(3)]
    lat = np.sqrt((fp[0] - fc[0]) ** 2 + (fp[1] - fc[1]) ** 2 + (fp[2] - fc[2]) ** 2)
    return np.array([lat, 0, pz]), cz, np.array(fp)


def s_air(orig_pos, cal: Calibration, mm: MultimediaPar):
    """collinearity equations"""
    dm = cal.ext_par.dm
    v = [orig_pos[0] - cal.ext_par.x0, orig_pos[1] - cal.ext_par.y0, orig_pos[2] - cal.ext_par.z0]
    w = [dm[0][j] * v[0] + dm[1][j] * v[1] + dm[2][j] * v[2] for j in range(3)]
    return -cal.int_par.cc * w[0] / w[2], -cal.int_par.cc * w[1] / w[2]


def s_water(orig_pos, cal: Calibration, mm: MultimediaPar):
    """the point is shifted radially in the glass frame by the refraction factor, then imaged"""
    pt, cp, cc, z0 = trans_cam_point(cal.ext_par, mm, cal.glass_par, orig_pos)
    f = fast_multimed_r_nlay(mm.nlay, mm.n1, np.array(mm.n2), mm.n3, np.array(mm.d), 0.0, 0.0, z0, pt)
    g = cal.glass_par
    gl = np.sqrt(g[0] * g[0] + g[1] * g[1] + g[2] * g[2])
    fc = [cc[i] - g[i] * mm.d[0] / gl for i in range(3)]
    p = [fc[i] + (cp[i] - fc[i]) * f + g[i] / gl * pt[2] for i in range(3)]
    return s_air(p, cal, mm)


def s_img(pos, cal: Calibration, mm: MultimediaPar):
    x, y = flat_image_coord(pos, cal, mm)
    return flat_to_dist(x, y, cal)


def s_flat_image_coord(pos, cal: Calibration, mm: MultimediaPar):
    return flat_image_coord(pos, cal, mm)


def s_img_coord(pos, cal: Calibration, mm: MultimediaPar):
    return img_coord(pos, cal, mm)
