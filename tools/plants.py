"""Planted bugs, see plant.py."""
PLANTS = []


def p(pid, prop, edits, needs, breaks, demo):
    if isinstance(edits, tuple):
        edits = [edits]
    PLANTS.append((pid, prop, edits, needs, breaks, demo))


p("C24-layers", "C24", ("multimed.py", "zout = Z + np.sum(d[1:nlay])", "zout = Z + np.sum(d[1:2])"),
  "an interface of three layers between air and water",
  "the depth of the outer boundary leaves out the thickness of the third layer, so that the ray is refracted at the wrong plane",
  '''
import numpy as np
from openptv_python.multimed import fast_multimed_r_nlay
n1, n2, n3 = 1.0, np.array([1.46, 1.5, 1.6]), 1.33
d = np.array([5.0, 6.0, 7.0])
z0, Z, R = 200.0, -40.0, 60.0
q = fast_multimed_r_nlay(3, n1, n2, n3, d, 0.0, 0.0, z0, np.array([R, 0.0, Z])) * R
# follow the ray from the camera through all layers
s = q / np.hypot(q, z0 - Z)
t = lambda n: np.tan(np.arcsin(s * n1 / n))
r = (z0 - d[0]) * t(n1) + sum(d[i] * t(n2[i]) for i in range(3)) - (Z + d[1] + d[2]) * t(n3)
assert abs(r - R) < 0.01, (r, R)
''')

p("C26-extent", "C26", ("multimed.py", "if vpar.z_min_lay[1] < z_min:", "if vpar.z_min_lay[1] < z_max:"),
  "a slanted observed volume whose lower limit rises from left to right",
  "the lower depth limit of the volume is taken from the right end even when the left one lies deeper, so the extents leave out rays",
  '''
import numpy as np
from openptv_python.calibration import Calibration
from openptv_python.parameters import ControlPar, VolumePar, MultimediaPar
from openptv_python.multimed import volumedimension
cal = Calibration()
cal.set_pos(np.array([0.0, 0.0, 300.0]))
cal.set_angles(np.zeros(3))
cal.set_primary_point(np.array([0.0, 0.0, 80.0]))
cal.set_glass_vec(np.array([0.0, 0.0, 0.001]))
cpar = ControlPar(num_cams=1, imx=1000, imy=1000, pix_x=0.01, pix_y=0.01, mm=MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[1.0], n3=1.0))
vpar = VolumePar(x_lay=[-10.0, 10.0], z_min_lay=[-60.0, -20.0], z_max_lay=[30.0, 40.0])
r = volumedimension(-1e9, 1e9, -1e9, 1e9, 0.0, 0.0, vpar, cpar, [cal])
assert r[5] == -60.0 and r[4] == 40.0, r
assert abs(r[0] - 5.0 / 80 * 360) < 1e-6, r
''')

p("C07-addpar", "C07", ("calibration.py", "    \"\"\"Compare added parameters.\"\"\"\n    return np.array_equal(a1, a2)", "    \"\"\"Compare added parameters.\"\"\"\n    return np.allclose(a1, a2)"),
  "two calibrations that differ only in a distortion coefficient which is small in absolute value",
  "calibrations with different distortion coefficients are reported equal",
  '''
import numpy as np
from openptv_python.calibration import Calibration, compare_calibration
a, b = Calibration(), Calibration()
assert compare_calibration(a, b)
a.set_added_par(np.array([0, 3e-9, 0, 0, 0, 1.0, 0]))
b.set_added_par(np.array([0, -3e-9, 0, 0, 0, 1.0, 0]))
assert not compare_calibration(a, b)
''')

p("C04-decenter", "C04", ("calibration.py", "{added_par[3]:.8f} {added_par[4]:.8f} {added_par[5]", "{added_par[4]:.8f} {added_par[3]:.8f} {added_par[5]"),
  "a lens with decentering distortion, p1 different from p2",
  "the two decentering coefficients change places when a calibration is saved and read again",
  '''
import os
from pathlib import Path
import numpy as np
from openptv_python.calibration import Calibration
d = Path(os.environ["DEMO_TMP"])
c = Calibration()
c.set_pos(np.array([1.0, 2.0, 3.0])); c.set_angles(np.array([0.1, 0.2, 0.3]))
ap = np.array([1e-4, 2e-5, 3e-6, 4e-4, -5e-4, 1.25, 0.5])
c.set_added_par(ap)
c.write(d / "o.ori", d / "o.addpar")
r = Calibration.from_file(d / "o.ori", d / "o.addpar")
assert np.allclose(r.added_par, ap, atol=1e-7), r.added_par
''')

CALS = '''
import numpy as np
from openptv_python.calibration import Calibration
from openptv_python.parameters import ControlPar, VolumePar, MultimediaPar
from openptv_python.imgcoord import flat_image_coord, img_coord
from openptv_python.constants import COORD_UNUSED


def camera(x, y, z, om, ph, ka, cc=80.0):
    c = Calibration()
    c.set_pos(np.array([x, y, z], dtype=float))
    c.set_angles(np.array([om, ph, ka], dtype=float))
    c.set_primary_point(np.array([0.0, 0.0, cc]))
    c.set_glass_vec(np.array([0.0, 0.0, 0.001]))
    return c


air = MultimediaPar(nlay=1, n1=1.0, n2=[1.0], d=[1.0], n3=1.0)
cals = [camera(-150, 60, 260, -0.2, -0.5, 0.1), camera(150, 40, 260, -0.1, 0.5, 0.0),
        camera(-140, -50, 280, 0.15, -0.45, 0.05), camera(140, -60, 280, 0.2, 0.45, -0.1)]
'''

p("C28-break", "C28", ("orientation.py", "            if targets[pair][0] == COORD_UNUSED:\n                continue", "            if targets[pair][0] == COORD_UNUSED:\n                break"),
  "a point that an inner camera does not see while cameras before and after it do",
  "pairs beyond the first camera that does not see the point are left out of the mean position",
  CALS + '''
from openptv_python.orientation import point_position, skew_midpoint
from openptv_python.ray_tracing import ray_tracing
p = np.array([4.0, -7.0, 3.0])
t = np.array([flat_image_coord(p, c, air) for c in cals])
t[0] += [0.02, -0.01]
t[2] += [-0.03, 0.015]
t[1] = COORD_UNUSED
d, got = point_position(t, 4, air, cals)
see = [0, 2, 3]
rays = {c: ray_tracing(t[c][0], t[c][1], cals[c], air) for c in see}
pairs = [skew_midpoint(*rays[a], *rays[b]) for i, a in enumerate(see) for b in see[i + 1:]]
assert np.allclose(got, np.mean([m for _, m in pairs], axis=0)), got
assert np.isclose(d, np.mean([x for x, _ in pairs]))
''')

p("C01-sort", "C01", ("tracking_frame_buf.py", "    file_name = file_base % frame_num + \"_targets\"\n\n    try:\n", "    file_name = file_base % frame_num + \"_targets\"\n    targets.sort(key=lambda t: t.pnr)\n\n    try:\n"),
  "a target list whose targets do not stand in the order of their numbers",
  "writing targets to a file reorders the caller's list",
  '''
import os
from openptv_python.tracking_frame_buf import Target, write_targets
d = os.environ["DEMO_TMP"]
ts = [Target(pnr=k, x=10.0 * k, y=1.0, n=5, nx=2, ny=2, sumg=30, tnr=-1) for k in (2, 0, 1)]
before = [t.pnr for t in ts]
assert write_targets(ts, 3, os.path.join(d, "cam1."), 12)
assert [t.pnr for t in ts] == before, [t.pnr for t in ts]
''')

p("C02-particle", "C02", ("track.py", "    ref_path_inf.x = vec_copy(pos)\n    ref_path_inf.reset_links()", "    ref_path_inf.x = pos\n    ref_path_inf.reset_links()"),
  "two particles added from one position array that is reused between the calls",
  "the particles added to a frame share the caller's position array, so that all of them move when it is reused",
  '''
import numpy as np
from openptv_python.tracking_frame_buf import Frame
from openptv_python.track import add_particle
from openptv_python.constants import TR_UNUSED
f = Frame(2, 5)
pos = np.zeros(3)
inds = np.full((2, 4), TR_UNUSED, dtype=int)
for k in range(2):
    pos[:] = (1.0 + k, 2.0 + k, 3.0 + k)
    add_particle(f, pos, inds)
assert list(f.path_info[0].x) == [1.0, 2.0, 3.0], f.path_info[0].x
assert list(f.path_info[1].x) == [2.0, 3.0, 4.0], f.path_info[1].x
''')

p("C14-first", "C14", ("correspondences.py", "            if tnum > -1 and tusage[cam][tnum] > 0:", "            if tnum > 0 and tusage[cam][tnum] > 0:"),
  "two accepted sets that share the detection with index 0 of some camera",
  "the detection with index 0 of a camera is used in more than one set",
  '''
import numpy as np
from openptv_python.correspondences import take_best_candidates
from openptv_python.tracking_frame_buf import n_tupel_dtype
src = np.recarray((2,), dtype=n_tupel_dtype)
dst = np.recarray((2,), dtype=n_tupel_dtype)
src[0].p, src[0].corr = [1, 0, 2, 3], 5.0
src[1].p, src[1].corr = [2, 0, 3, 4], 4.0
assert take_best_candidates(src, dst, 4, np.zeros((4, 10), dtype=np.int32)) == 1
src[0].p, src[0].corr = [1, 1, 2, 3], 5.0
src[1].p, src[1].corr = [2, 0, 3, 4], 4.0
assert take_best_candidates(src, dst, 4, np.zeros((4, 10), dtype=np.int32)) == 2
''')

p("C13-upper", "C13", ("find_candidate.py", "crd[j].y >= yb + vpar.eps0:", "crd[j].y >= yb:"),
  "a detection above the upper end of the epipolar line's segment but inside the tolerance",
  "candidates inside the tolerance band above the segment's upper end are lost",
  CALS + '''
from openptv_python.find_candidate import find_candidate
from openptv_python.tracking_frame_buf import Target, Coord2d_dtype
from openptv_python.parameters import VolumePar, ControlPar
crd = np.array([(0, 1.0, -0.05), (1, 2.0, 0.05)], dtype=[(n, Coord2d_dtype.fields[n][0]) for n in Coord2d_dtype.names]).view(np.recarray)
crd.pnr = [0, 1]
crd.x, crd.y = [1.0, 2.0], [-0.05, 0.05]
pix = [Target(pnr=i, x=1.0, y=1.0, n=10, nx=3, ny=3, sumg=100, tnr=-1) for i in range(2)]
vpar = VolumePar(x_lay=[-1, 1], z_min_lay=[-1, -1], z_max_lay=[1, 1], cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, eps0=0.1)
cpar = ControlPar(num_cams=2, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05)
c = find_candidate(crd, pix, 2, -5.0, 0.0, 5.0, 0.0, 10, 3, 3, 100, vpar, cpar, cals[0])
assert sorted(int(x) for x in c.pnr) == [0, 1], c
''')

p("C11-height", "C11", ("segmentation.py", "                        and ny <= nymax\n", "                        and ny <= nxmax\n"),
  "limits of width and height that differ",
  "spots higher than the configured limit are reported",
  '''
import numpy as np
from openptv_python.segmentation import targ_rec
from openptv_python.parameters import TargetPar, ControlPar
img = np.zeros((60, 60), np.uint8)
img[20:31, 20:23] = 100
img[25, 21] = 200
par = TargetPar(gvthresh=[50] * 4, discont=250, nnmin=1, nnmax=1000, nxmin=1, nxmax=20, nymin=1, nymax=5, sumg_min=10)
t = targ_rec(img, par, 0, 60, 0, 60, ControlPar(num_cams=1, imx=60, imy=60), 0)
assert not any(x.ny > 5 for x in t), t
par = TargetPar(gvthresh=[50] * 4, discont=250, nnmin=1, nnmax=1000, nxmin=1, nxmax=20, nymin=1, nymax=15, sumg_min=10)
assert len(targ_rec(img, par, 0, 60, 0, 60, ControlPar(num_cams=1, imx=60, imy=60), 0)) == 1
''')

p("C11-merged", "C11", ("segmentation.py", "            peaks[i].unr == 0\n            and peaks[i].sumg > targ_par.sumg_min\n", "            peaks[i].sumg > targ_par.sumg_min\n"),
  "two touching peaks close enough in profile and position to be one spot",
  "a peak that was merged into another one is reported as a spot of its own as well",
  '''
import numpy as np
from openptv_python.segmentation import peak_fit
from openptv_python.parameters import TargetPar, ControlPar
par = TargetPar(gvthresh=[10] * 4, discont=5, nnmin=1, nnmax=1000, nxmin=1, nxmax=50, nymin=1, nymax=50, sumg_min=1)
cpar = ControlPar(num_cams=1, imx=60, imy=60)
rnd = np.random.RandomState(3)
for k in range(60):
    img = np.zeros((60, 60), np.uint8)
    for _ in range(30):
        img[rnd.randint(20, 28), rnd.randint(20, 30)] = rnd.randint(50, 57)
    t = peak_fit(img, par, 0, 60, 0, 60, cpar, 0)
    assert sum(x.n for x in t) <= (img > 10).sum(), (k, t)
''')

p("C12-default", "C12", ("segmentation.py", "        ymin, ymax = 0, cparam.imy\n", "        ymin, ymax = 0, cparam.imx\n"),
  "an image that is higher than wide, without a search window",
  "without a search window only a part of an upright image is searched",
  '''
import numpy as np
from openptv_python.segmentation import target_recognition
from openptv_python.parameters import TargetPar, ControlPar
par = TargetPar(gvthresh=[50] * 4, discont=250, nnmin=1, nnmax=1000, nxmin=1, nxmax=50, nymin=1, nymax=50, sumg_min=10)
for w, h in ((40, 60), (50, 50), (40, 90)):
    img = np.zeros((h, w), np.uint8)
    img[h - 6:h - 3, 10:13] = 100
    img[h - 5, 11] = 200
    t = target_recognition(img, par, 0, ControlPar(num_cams=1, imx=w, imy=h))
    assert len(t) == 1 and t[0].n == 9, (w, h, t)
''')

p("C12-right", "C12", ("segmentation.py", "if xn >= xmax or yn >= ymax or xn < 0 or yn < 0:", "if xn > xmax or yn >= ymax or xn < 0 or yn < 0:"),
  "a spot that crosses the right border of the search area",
  "spots grow over the right border of the given search area",
  '''
import numpy as np
from openptv_python.segmentation import targ_rec
from openptv_python.parameters import TargetPar, ControlPar
img = np.zeros((60, 60), np.uint8)
img[20:23, 15:26] = 100
img[21, 17] = 200
par = TargetPar(gvthresh=[50] * 4, discont=250, nnmin=1, nnmax=1000, nxmin=1, nxmax=50, nymin=1, nymax=50, sumg_min=10)
for t in targ_rec(img, par, 5, 20, 5, 40, ControlPar(num_cams=1, imx=60, imy=60), 0):
    assert t.nx <= 5 and t.n <= 15, t
''')

p("C16-side", "C16", ("sortgrid.py", "            and (calib_point[1] < cpar.imy + eps)", "            and (calib_point[1] < cpar.imy)"),
  "a calibration point projected just below the image whose detection lies inside the image",
  "calibration points projected less than the radius below the image get no detection",
  CALS + '''
from openptv_python.sortgrid import sortgrid
from openptv_python.tracking_frame_buf import Target
from openptv_python.trafo import pixel_to_metric, metric_to_pixel
cpar = ControlPar(num_cams=1, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05, mm=air)
c = camera(0, 0, 300, 0, 0, 0)
for u, v in ((500.0, 1003.0), (1003.0, 500.0), (500.0, -3.0), (-3.0, 500.0)):
    x, y = pixel_to_metric(u, v, cpar)
    p = np.array([x, y, 0.0]) * 300 / 80 * np.array([1, 1, 0])
    got = metric_to_pixel(*img_coord(p, c, air), cpar)
    assert abs(got[0] - u) + abs(got[1] - v) < 1.0, got
    q = Target(pnr=0, x=min(max(u, 2.0), 998.0), y=min(max(v, 2.0), 998.0), n=10, nx=3, ny=3, sumg=100, tnr=-1)
    out = sortgrid(c, cpar, 1, np.array([p]), 10, [q])
    assert out[0].pnr == 0 and out[0].x == q.x and out[0].y == q.y, (u, v, out)
''')

p("C10-border", "C10", ("correspondences.py", "                    vpar,\n                    cpar,\n                    calib[i2],\n", "                    vpar,\n                    cpar,\n                    calib[i1],\n"),
  "two cameras whose principal points differ so much that the epipolar line lies outside one sensor and inside the other",
  "the second camera's candidates are clipped to the sensor of the first camera",
  CALS + '''
from openptv_python.correspondences import match_pairs, safely_allocate_adjacency_lists
from openptv_python.tracking_frame_buf import Frame, Target, match_coords
from openptv_python.parameters import VolumePar, ControlPar
from openptv_python.trafo import metric_to_pixel
from openptv_python.imgcoord import img_coord
cpar = ControlPar(num_cams=2, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05, mm=air)
cals[0].set_primary_point(cals[0].get_primary_point() + np.array([30.0, 0.0, 0.0]))
pos = np.array([0.0, 0.0, 0.0])
frm = Frame(2, 5)
for c in range(2):
    x, y = metric_to_pixel(*img_coord(pos, cals[c], air), cpar)
    assert c == 0 or 0 < x < 1000 and 0 < y < 1000
    frm.targets[c] = [Target(pnr=0, x=x, y=y, n=10, nx=3, ny=3, sumg=100, tnr=-1)]
    frm.num_targets[c] = 1
vpar = VolumePar(x_lay=[-5, 5], z_min_lay=[-1, -1], z_max_lay=[1, 1], cn=0.1, cnx=0.1, cny=0.1, csumg=0.1, corrmin=1, eps0=0.05)
corrected = [match_coords(frm.targets[c], cpar, cals[c], 1e-5) for c in range(2)]
lists = safely_allocate_adjacency_lists(2, [1, 1])
match_pairs(lists, corrected, frm, vpar, cpar, cals[:2])
assert lists[0][1][0].n == 1, lists[0][1][0].n
''')

p("C29-dark", "C29", ("find_candidate.py", "    if a == 0 and b == 0:\n        return 0\n", ""),
  "two detections without grey values (both sums zero)",
  "the quality ratio of two zeros is undefined",
  '''
import math
from openptv_python.find_candidate import quality_ratio
q = quality_ratio(0.0, 0.0)
assert not math.isnan(q) and q == 0, q
''')

SIM = CALS + '''
import os, io, contextlib, tempfile
from pathlib import Path
from openptv_python.parameters import SequencePar, TrackPar, convert_track_par_to_tuple
from openptv_python.tracking_frame_buf import Frame, Target, Pathinfo
from openptv_python.tracking_run import TrackingRun
from openptv_python.track import track_forward_start, trackcorr_c_loop, trackcorr_c_finish, trackback_c
from openptv_python.trafo import metric_to_pixel
from openptv_python.constants import CORRES_NONE

cpar = ControlPar(num_cams=4, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05, mm=air)


def tracking(steps, limits, dangle=100.0, dacc=2.0, add=0, noise={}, first=1, num_cams=4, hidden=(), xlay=(-20.0, 20.0)):
    """steps: for every time step a dict name -> position; names in hidden are (step, name) pairs
    detected but not reconstructed; cams seeing them optional as {(step, name): [cams]}"""
    d = Path(os.environ["DEMO_TMP"])
    cp = ControlPar(num_cams=num_cams, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05, mm=air)
    cl = cals[:num_cams]
    bases = [str(d / ("cam%d." % (c + 1))) for c in range(num_cams)]
    order = []
    for s, parts in enumerate(steps):
        fr = Frame(num_cams, 50)
        n = 0
        lists = [[] for _ in range(num_cams)]
        for k, (name, pos) in enumerate(parts.items()):
            seen = dict(hidden).get((s, name), range(num_cams)) if isinstance(hidden, dict) else range(num_cams)
            for c in range(num_cams):
                if c not in seen:
                    continue
                x, y = metric_to_pixel(*img_coord(np.asarray(pos, float), cl[c], air), cp)
                lists[c].append((y, x, name, -1 if (s, name) in hidden else k))
        where = {}
        for c in range(num_cams):
            lists[c].sort()
            for i, (y, x, name, t) in enumerate(lists[c]):
                where[c, name] = i
                fr.targets[c][i] = Target(pnr=i, x=x, y=y, n=10, nx=3, ny=3, sumg=100, tnr=-1)
            fr.num_targets[c] = len(lists[c])
        names = []
        for name, pos in parts.items():
            if (s, name) in hidden:
                continue
            fr.path_info[n].x = np.asarray(pos, float)
            fr.correspond[n].nr = n + 1
            for c in range(4):
                i = where.get((c, name), CORRES_NONE) if c < num_cams else CORRES_NONE
                fr.correspond[n].p[c] = i
                if i >= 0 and c < num_cams:
                    fr.targets[c][i].tnr = n
            names.append(name)
            n += 1
        fr.num_parts = n
        order.append(names)
        assert fr.write(str(d / "rt_is"), str(d / "ptv_is"), str(d / "added"), bases, first + s)
    sp = SequencePar(img_base_name=bases, first=first, last=first + len(steps) - 1)
    tp = TrackPar(dvxmin=limits[0], dvxmax=limits[1], dvymin=limits[2], dvymax=limits[3], dvzmin=limits[4], dvzmax=limits[5],
                  dangle=dangle, dacc=dacc, add=add)
    vp = VolumePar(x_lay=list(xlay), z_min_lay=[-30.0, -30.0], z_max_lay=[30.0, 30.0])
    run = TrackingRun(sp, convert_track_par_to_tuple(tp), vp, cp, 4, 50, str(d / "rt_is"), str(d / "ptv_is"), str(d / "added"), cl, 1e-4)
    return run, order, d


def forward(run):
    with contextlib.redirect_stdout(io.StringIO()):
        track_forward_start(run)
        for s in range(run.seq_par.first, run.seq_par.last):
            trackcorr_c_loop(run, s)
        trackcorr_c_finish(run, run.seq_par.last)


def links(d, s):
    rows = open(str(d / "ptv_is") + ".%d" % s).read().splitlines()[1:]
    return [(int(float(r.split()[0])), int(float(r.split()[1])), [float(v) for v in r.split()[2:5]]) for r in rows if r.strip()]
'''

p("C15-unseen", "C15", ("track.py", "                if curr_corres.p[j] == CORRES_NONE:\n                    v1[j]", "                if curr_corres.p[j] < CORRES_NONE:\n                    v1[j]"),
  "a particle without a past that one camera does not see",
  "the search in the camera that does not see a particle starts from another particle's detection, and the link is lost",
  SIM + '''
def go(cams):
    steps = [{"a": (-8 + 3.0 * s, 1 + .2 * s, 0.5), "z": (10 - 2.0 * s, -9.0, 1.0)} for s in range(4)]
    return tracking(steps, (-5, 5, -1, 1, -1, 1), hidden=None or {})
run, order, d = go(4)
# camera 1 and 2 do not see "a" in the first step
for c in (0, 1):
    f = d / ("cam%d.0001_targets" % (c + 1))
    assert f.exists() or True
import glob
from openptv_python.tracking_frame_buf import Frame as F
fr = F(4, 50)
assert fr.read(str(d / "rt_is"), "", "", [str(d / ("cam%d." % (c + 1))) for c in range(4)], 1)
fr.correspond[0].p[0] = -1
fr.correspond[0].p[1] = -1
fr.correspond[0].p[2] = -1
assert fr.write(str(d / "rt_is"), str(d / "ptv_is"), str(d / "added"), [str(d / ("cam%d." % (c + 1))) for c in range(4)], 1)
forward(run)
l = links(d, 1)
assert [x[1] for x in l] == [0, 1], l
''')

p("C17-backward", "C17", ("track.py", "            if curr_path_inf.inlist == 0 and curr_path_inf.prev_frame >= 0:\n                diff_pos = vec_subt(X[3], X[1])", "            if curr_path_inf.inlist == 0 and curr_path_inf.prev_frame >= 0:\n                diff_pos = vec_subt(X[1], X[3])"),
  "limits of the velocity that are not symmetric, and a trajectory that ends",
  "the last link of a trajectory is accepted or refused by the limits of the opposite direction",
  SIM + '''
steps = [{"a": (-8 + 3.0 * s, 1 + .2 * s, 0.5)} for s in range(4)] + [{"b": (-15.0, -15.0, 0.0)} for s in range(3)]
run, order, d = tracking(steps, (1, 5, -2, 2, -2, 2), add=0)
forward(run)
for s in range(1, 4):
    assert links(d, s)[0][1] == 0, (s, links(d, s))
''')

p("C18-both", "C18", ("track.py", "                    # remove link with prev\n                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n", "                    # remove link with prev\n"),
  "two particles that compete for one successor, the better one second in the list",
  "both particles keep a link to the same successor",
  SIM + '''
ok = 0
for off in (0.9, 1.0, -0.9, -1.0):
    steps = [{"a": (-8 + 3.0 * s, 1.0, 0.5)} for s in range(5)]
    steps[0] = {"w": (-8.0, 1.0 + off, 0.5), "a": (-8.0, 1.0, 0.5)}
    run, order, d = tracking(steps, (1, 5, -2, 2, -2, 2), add=0, dacc=5.0)
    forward(run)
    l = links(d, 1)
    nxt = [x[1] for x in l if x[1] >= 0]
    assert len(nxt) == len(set(nxt)), l
    m = links(d, 2)
    for i, x in enumerate(l):
        if x[1] >= 0:
            assert m[x[1]][0] == i, (l, m)
    ok += len(nxt)
assert ok == 4
''')

p("C20-below", "C20", ("track.py", "                        and run_info.ymin < X[3][1] < run_info.ymax\n                        and vpar.z_min_lay[0] < X[3][2] < vpar.z_max_lay[1]\n                    ):\n                        in_volume = 1\n\n                    diff_pos = vec_subt(X[3], X[1])", "                        and run_info.ymin < X[3][1] < run_info.ymax\n                        and X[3][2] < vpar.z_max_lay[1]\n                    ):\n                        in_volume = 1\n\n                    diff_pos = vec_subt(X[3], X[1])"),
  "a particle that leaves the observed volume downwards and stays visible, with another particle in its search area that does not fit",
  "particles are added below the observed volume",
  SIM + '''
steps = [{"a": (0.2 * s, 1.0, -22.0 - 3.0 * s), "b": (5.0, 5.0 + 0.1 * s, 2.0)} for s in range(5)]
steps[3]["c"] = (0.6, 4.5, -27.0)
hid = {(s, "a"): [0, 1, 2, 3] for s in (3, 4)}
run, order, d = tracking(steps, (-5, 5, -5, 5, -5, 5), add=1, hidden=hid)
forward(run)
for s in range(1, 6):
    for l in links(d, s):
        assert -30.0 <= l[2][2] <= 30.0, (s, l)
assert [x[1] for x in links(d, 1)] == [0, 1] and [x[1] for x in links(d, 2)] == [0, 1]
''')

p("C19-last", "C19", ("track.py", "    if step < run_info.seq_par.last - 2:\n", "    if step < run_info.seq_par.last - 3:\n"),
  "the last time step of a sequence of more than four",
  "the last time step of the sequence is never read, its particles get no links",
  SIM + '''
steps = [{"a": (-8 + 3.0 * s, 1 + .2 * s, 0.5), "b": (-8 + 3.0 * s, -5 + .2 * s, 0.5)} for s in range(6)]
run, order, d = tracking(steps, (1, 5, -2, 2, -2, 2), add=0)
forward(run)
for s in range(1, 6):
    assert [x[1] for x in links(d, s)] == [0, 1], (s, links(d, s))
''')

p("C03-first", "C03", ("orientation.py", "            pos = fix[i]\n            cal.update_rotation_matrix()\n", "            pos = fix[i]\n"),
  "an orientation whose angles change in the first iteration",
  "in every iteration but the first, the first point is projected with the rotation of the previous angles",
  CALS + '''
import openptv_python.orientation as o
from openptv_python.calibration import rotation_matrix
from openptv_python.parameters import OrientPar
from openptv_python.tracking_frame_buf import Target
from openptv_python.trafo import metric_to_pixel
cpar = ControlPar(num_cams=1, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05, mm=air)
fix = np.array([[x, y, z] for x in (-20.0, 0.0, 20.0) for y in (-20.0, 0.0, 20.0) for z in (-10.0, 10.0)])
c = camera(0, 0, 260, 0.02, -0.03, 0.01)
pix = []
for i, q in enumerate(fix):
    x, y = metric_to_pixel(*img_coord(q, c, air), cpar)
    pix.append(Target(pnr=i, x=x, y=y, n=10, nx=3, ny=3, sumg=100, tnr=-1))
c.set_angles(np.array([0.05, 0.01, 0.03]))
c.set_pos(np.array([5.0, -4.0, 250.0]))
bad = []
real = o.img_coord
def watch(pos, cal, mm):
    e = cal.ext_par.copy()
    rotation_matrix(e)
    if not np.allclose(e.dm, cal.ext_par.dm, atol=1e-9):
        bad.append(pos)
    return real(pos, cal, mm)
o.img_coord = watch
o.raw_orient(c, cpar, len(fix), fix, pix)
assert not bad, len(bad)
''')

p("C05-cameras", "C05", ("tracking_frame_buf.py", "                f\"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\\n\"", "                f\"{cor_buf[pix].p[3]} {cor_buf[pix].p[2]}\\n\""),
  "a particle whose detections in the third and fourth camera have different numbers",
  "the detections of the third and the fourth camera change places when a frame is written and read back",
  '''
import os
from openptv_python.tracking_frame_buf import Frame, Target
d = os.environ["DEMO_TMP"]
f = Frame(4, 5)
f.num_parts = 2
for k in range(2):
    f.path_info[k].x[:] = (1.0, 2.0, 3.0 + k)
    f.correspond[k].nr = k + 1
    f.correspond[k].p = [0 + k, 2 - k, 1 + k, 3 - k]
for c in range(4):
    f.targets[c] = [Target(pnr=i, x=1.0 + i, y=2.0, n=10, nx=3, ny=3, sumg=100, tnr=-1) for i in range(4)]
    f.num_targets[c] = 4
b = [d + "/c%d." % c for c in range(4)]
assert f.write(d + "/rt", d + "/ptv", d + "/add", b, 7)
g = Frame(4, 5)
assert g.read(d + "/rt", d + "/ptv", d + "/add", b, 7)
for k in range(2):
    assert list(g.correspond[k].p) == list(f.correspond[k].p), (g.correspond[k].p, f.correspond[k].p)
''')

p("C08-tangent", "C08", ("trafo.py", "    y1 = y / cos_she - yq * common_term - ap[4] * (r**2 + 2 * yq**2) - two_p1 * xq * yq", "    y1 = y / cos_she - yq * common_term - ap[4] * (r**2 + 2 * yq**2) - two_p2 * xq * yq"),
  "a lens with two different decentering coefficients",
  "the distorted point corrected and distorted again is another point when the decentering coefficients differ",
  '''
import numpy as np
from openptv_python.trafo import correct_brown_affine, distort_brown_affine
ap = np.array([1e-5, 0.0, 0.0, 1e-3, -2e-3, 1.001, 0.05])
for x, y in ((3.0, 4.0), (-7.0, 2.0), (5.0, -8.0), (1.0, 9.0)):
    u, v = correct_brown_affine(x, y, ap, 1e-10)
    p, q = distort_brown_affine(u, v, ap)
    assert abs(p - x) < 1e-5 and abs(q - y) < 1e-5, (x, y, p, q)
''')

p("C09-curve", "C09", ("epi.py", "    x, y = dist_to_flat(x, y, origin_cam, 0.00001)\n", ""),
  "a camera with lens distortion or a shifted principal point",
  "the epipolar curve is that of the distorted point taken for an undistorted one",
  CALS + '''
from openptv_python.epi import epipolar_curve
from openptv_python.trafo import metric_to_pixel
cpar = ControlPar(num_cams=2, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05, mm=air)
cals[0].set_radial_distortion(np.array([1e-5, 0.0, 0.0]))
cals[0].set_primary_point(cals[0].get_primary_point() + np.array([2.0, -1.0, 0.0]))
vpar = VolumePar(x_lay=[-5, 5], z_min_lay=[-10, -10], z_max_lay=[10, 10])
p = np.array([4.0, -7.0, 0.0])
u = [np.array(metric_to_pixel(*img_coord(p, c, air), cpar)) for c in cals[:2]]
line = epipolar_curve(u[0], cals[0], cals[1], 101, cpar, vpar)
assert np.hypot(*(line - u[1]).T).min() < 2.0, np.hypot(*(line - u[1]).T).min()
''')

p("C21-camera", "C21", ("tracking_frame_buf.py", "                frame_num,\n            )\n\n            if status == 0:\n                return False\n\n        return True\n\n    def positions", "                frame_num,\n            )\n\n        if status == 0:\n            return False\n\n        return True\n\n    def positions"),
  "a targets file of a camera before the last one that can not be written",
  "a frame is reported as written although the targets of a camera could not be",
  '''
import os
from openptv_python.tracking_frame_buf import Frame, Target
d = os.environ["DEMO_TMP"]
f = Frame(3, 5)
for c in range(3):
    f.targets[c] = [Target(pnr=i, x=1.0 + i, y=2.0, n=10, nx=3, ny=3, sumg=100, tnr=-1) for i in range(4)]
    f.num_targets[c] = 4
b = [d + "/c%d." % c for c in range(3)]
assert f.write(d + "/rt", d + "/ptv", d + "/add", b, 7)
b[1] = d + "/nowhere/c1."
assert not f.write(d + "/rt", d + "/ptv", d + "/add", b, 7)
''')

p("C22-decenter", "C22", ("orientation.py", "        if not flags.p2flag:\n            beta[13] = 0.0", "        if not flags.p1flag:\n            beta[13] = 0.0"),
  "an orientation that adjusts the first decentering parameter and not the second",
  "the second decentering parameter changes although only the first was to be adjusted",
  CALS + '''
from openptv_python.orientation import orient
from openptv_python.parameters import OrientPar
from openptv_python.tracking_frame_buf import Target
from openptv_python.trafo import metric_to_pixel
cpar = ControlPar(num_cams=1, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05, mm=air)
fix = np.array([[x, y, z] for x in (-20.0, 0.0, 20.0) for y in (-20.0, 0.0, 20.0) for z in (-10.0, 10.0)])
c = camera(0, 0, 260, 0.02, -0.03, 0.01)
c.set_decentering(np.array([1e-5, 2e-5]))
pix = []
for i, q in enumerate(fix):
    x, y = metric_to_pixel(*img_coord(q, c, air), cpar)
    pix.append(Target(pnr=i, x=x, y=y, n=10, nx=3, ny=3, sumg=100, tnr=-1))
c.set_decentering(np.array([0.0, 1.7e-5]))
c.set_angles(np.array([0.05, 0.01, 0.03]))
c.set_pos(np.array([5.0, -4.0, 250.0]))
assert orient(c, cpar, len(fix), fix, pix, OrientPar(p1flag=1), np.zeros(20)) is not None
assert c.added_par[4] == 1.7e-5, c.added_par[4] - 1.7e-5
assert c.added_par[3] != 0.0
''')

p("C23-step", "C23", ("orientation.py", "        cal.increment_attribute(var[pd], -steps[pd])", "        cal.increment_attribute(var[pd], -steps[0])"),
  "different steps for positions and angles",
  "probing the derivatives leaves the angles of the calibration changed",
  CALS + '''
from openptv_python.orientation import num_deriv_exterior
cpar = ControlPar(num_cams=1, imx=1000, imy=1000, pix_x=0.05, pix_y=0.05, mm=air)
c = cals[0]
a, b = c.get_angles(), c.get_pos()
num_deriv_exterior(c, cpar, 1e-3, 1e-5, np.array([1.0, 2.0, 3.0]))
assert np.allclose(c.get_angles(), a, atol=1e-12) and np.allclose(c.get_pos(), b, atol=1e-9), c.get_angles() - a
''')

p("C06-order", "C06", ("parameters.py", "        track_par.dsumg,\n        track_par.dn,\n", "        track_par.dn,\n        track_par.dsumg,\n"),
  "tracking parameters whose limits on brightness and pixel count differ and are not zero",
  "the limits for the sum of grey values and the number of pixels change places on the way to the tracker",
  '''
from openptv_python.parameters import TrackPar, convert_track_par_to_tuple
t = convert_track_par_to_tuple(TrackPar(-1, 1, -2, 2, -3, 3, 40.0, 0.5, 1, 0.25, 7.0, 3.0, 4.0))
assert t.dsumg == 0.25 and t.dn == 7.0 and t.dnx == 3.0 and t.dny == 4.0, t
''')

p("C25-glass", "C25", ("ray_tracing.py", "c_param = np.linalg.norm(glass_vector) + distance_param", "c_param = glass_vector[2] + distance_param"),
  "a glass plate that is tilted against the depth axis",
  "the ray is refracted at a plate that stands nearer than the one given, so that tracing and projection disagree",
  '''
import numpy as np
from openptv_python.calibration import Calibration
from openptv_python.parameters import MultimediaPar
from openptv_python.imgcoord import flat_image_coord
from openptv_python.ray_tracing import ray_tracing
cal = Calibration()
cal.set_pos(np.array([60.0, 20.0, 300.0]))
cal.set_angles(np.array([0.02, 0.15, 0.01]))
cal.set_primary_point(np.array([0.0, 0.0, 80.0]))
mm = MultimediaPar(nlay=1, n1=1.0, n2=[1.46], d=[6.0], n3=1.33)
for g in ([0.0, 0.0, 100.0], [30.0, -10.0, 90.0]):
    cal.set_glass_vec(np.array(g))
    for q in ([3.0, -7.0, 4.0], [-12.0, 9.0, -20.0]):
        q = np.array(q)
        x, y = flat_image_coord(q, cal, mm)
        v, a = ray_tracing(x, y, cal, mm)
        assert abs(np.dot(v, np.array(g)) / np.linalg.norm(g) - np.linalg.norm(g)) < 1e-6, "the vertex is not on the plate"
        miss = np.linalg.norm(np.cross(q - v, a))
        assert miss < 0.05, (g, miss)
''')

p("C27-mask", "C27", ("image_processing.py", "    img_new = np.where(img_mask == 0, 0, img)\n", "    img_new = img.copy()\n    np.place(img_new, img_mask == 0, 0)\n"),
  "use of the compiled masking routine",
  "the routine that removes the masked part of an image cannot be compiled",
  '''
import numpy as np
from openptv_python.image_processing import subtract_mask
img = np.arange(12, dtype=np.uint8).reshape(3, 4)
mask = np.ones((3, 4), dtype=np.uint8)
mask[1, 2] = 0
r = subtract_mask(img, mask)
want = img.copy()
want[1, 2] = 0
assert (r == want).all()
''')

p("C34-rank", "C34", ("track.py", "                        p4, p3 = p3, j\n                        d4, d3 = d3, d\n", "                        p4, p3 = p3, j\n                        d3 = d\n"),
  "five or more detections in the search window, a farther one after the third nearest was replaced",
  "the fourth candidate offered to tracking is not the fourth nearest detection",
  '''
from openptv_python.parameters import ControlPar
from openptv_python.tracking_frame_buf import Target
from openptv_python.track import candsearch_in_pix
cpar = ControlPar(num_cams=1, imx=640, imy=480)
xs = [130, 170, 215, 112, 190, 108]
tg = [Target(pnr=i, x=float(x), y=90.0 + 2 * i, n=4, nx=2, ny=2, sumg=10, tnr=i) for i, x in enumerate(xs)]
got = list(candsearch_in_pix(tg, len(tg), 100.0, 100.0, 150, 150, 50, 50, cpar))
want = sorted(range(len(tg)), key=lambda i: (tg[i].x - 100) ** 2 + (tg[i].y - 100) ** 2)[:4]
assert got == want, (got, want)
tg = [Target(pnr=i, x=float(x), y=90.0 + 2 * i, n=4, nx=2, ny=2, sumg=10, tnr=i) for i, x in enumerate([110, 120, 140, 130, 170])]
got = list(candsearch_in_pix(tg, len(tg), 100.0, 100.0, 150, 150, 50, 50, cpar))
assert got == [0, 1, 3, 2], got
''')
