"""Programs whose results must not share mutable state."""
import numpy as np


def own_Calibration():
    return Calibration(), Calibration()


def own_MultimediaPar():
    return MultimediaPar(), MultimediaPar()


def own_SequencePar():
    return SequencePar(), SequencePar()


def own_TrackPar():
    return TrackPar(), TrackPar()


def own_VolumePar():
    return VolumePar(), VolumePar()


def own_ControlPar():
    return ControlPar(), ControlPar()


def own_TargetPar():
    return TargetPar(), TargetPar()


def own_OrientPar():
    return OrientPar(), OrientPar()


def own_CalibrationPar():
    return CalibrationPar(), CalibrationPar()


def own_MultiPlanesPar():
    return MultiPlanesPar(), MultiPlanesPar()


def own_ExaminePar():
    return ExaminePar(), ExaminePar()


def own_Target():
    return Target(), Target()


def own_Pathinfo():
    return Pathinfo(), Pathinfo()


def own_Peak():
    return Peak(), Peak()


def own_Frame():
    return Frame(2, 3), Frame(2, 3)


def own_FrameBuf():
    return FrameBuf(4, 2, 3, "x", "y", "z", ["a", "b"]), FrameBuf(4, 2, 3, "x", "y", "z", ["a", "b"])


def own_copy():
    a, b = Calibration(), Calibration()
    a.copy(b)
    return a, b


def own_getters():
    a = Calibration()
    return a, (a.get_pos(), a.get_angles(), a.get_rotation_matrix(), a.get_primary_point(), a.get_radial_distortion(), a.get_decentering(),
               a.get_affine(), a.get_glass_vec())


def own_setters(pos, ang, dm, pp, rad, dec, aff, glass, ap):
    a = Calibration()
    a.set_pos(pos)
    a.set_angles(ang)
    a.set_rotation_matrix(dm)
    a.set_primary_point(pp)
    a.set_added_par(ap)
    a.set_radial_distortion(rad)
    a.set_decentering(dec)
    a.set_affine_distortion(aff)
    a.set_glass_vec(glass)
    return a


def own_layers(n, d, zmin, zmax, names):
    mm, v, s = MultimediaPar(), VolumePar(), SequencePar()
    mm.set_layers(n, d)
    v.set_z_min_lay(zmin)
    v.set_z_max_lay(zmax)
    s.set_img_base_name(names)
    return mm, v, s


def own_layer_getters():
    mm = MultimediaPar()
    return mm, (mm.get_n2(), mm.get_d())


def own_ControlPar_dict():
    c = ControlPar()
    return c, ControlPar.to_dict(c)


def s_used_for_orientation(i, pix, flags):
    odd = i % 2 != 0
    if flags.useflag == 1:
        part = odd
    elif flags.useflag == 2:
        part = not odd
    elif flags.useflag == 3:
        part = i % 3 != 0
    else:
        part = True
    return pix[i].pnr == i and part


def s_adjustment_columns(x, y, a):
    r = np.sqrt(x * x + y * y)
    q = 1 + a[0] * r * r + a[1] * r ** 4 + a[2] * r ** 6
    return [
        [a[5], np.sin(a[6])],
        [0, 1],
        [a[5] * x * r * r, y * r * r],
        [a[5] * x * r ** 4, y * r ** 4],
        [a[5] * x * r ** 6, y * r ** 6],
        [a[5] * (2 * x * x + r * r), 2 * x * y],
        [2 * a[5] * x * y, 2 * y * y + r * r],
        [x * q + a[3] * (r * r + 2 * x * x) + 2 * a[4] * x * y, 0],
        [-np.cos(a[6]) * y, -np.sin(a[6]) * y],
    ]
