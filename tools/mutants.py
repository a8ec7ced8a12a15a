CASES = []


def m(pid, fn, old, new, expect=1):
    CASES.append((pid, fn, old, new, expect))


# ---- C26
m("C26", "vec_utils.py", "vec1[2] * vec2[0] - vec1[0] * vec2[2]", "vec1[0] * vec2[2] - vec1[2] * vec2[0]")
m("C26", "vec_utils.py", "vec = vec1 - vec2\n    return np.sqrt(vec[0] ** 2 + vec[1] ** 2 + vec[2] ** 2)", "return vec_norm(vec_subt(vec1, vec2))", 0)
m("C26", "multimed.py", "vertex[1] + (glob_z - vertex[2]) * direct[1] / dz", "vertex[1] + (glob_z - vertex[2]) * direct[0] / dz")
m("C26", "multimed.py", "    dz = direct[2]\n", "    dz = direct[2]\n    t = (glob_z - vertex[2]) / (dz if dz != 0 else 1.0)\n    if dz != 0:\n        return vertex + t * direct\n", 0)
m("C26", "orientation.py", "res = (on1 + on2) * 0.5", "res = on1 + (on2 - on1) / 2", 0)
m("C26", "orientation.py", "temp = np.cross(sp_diff, direct1)", "temp = np.cross(sp_diff, direct2)")
m("C26", "track.py", "return 2 * curr_pos - prev_pos", "return curr_pos + (curr_pos - prev_pos)", 0)
m("C26", "track.py", "return 2 * curr_pos - prev_pos", "return 2 * prev_pos - curr_pos")
m("C26", "track.py", "acc = np.linalg.norm(v0 - v1)", "acc = np.linalg.norm(v0 + v1)")
m("C26", "track.py", "(200.0 / np.pi)", "(180.0 / np.pi)")
m("C26", "multimed.py", "                X = pos[0] + (z_max - pos[2]) * a[0] / a[2]\n", "                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]\n")
m("C26", "multimed.py", "if vpar.z_max_lay[1] > z_max:", "if vpar.z_max_lay[1] < z_max:")
m("C26", "multimed.py", "xc = [0.0, cpar.imx]\n    yc = [0.0, cpar.imy]\n\n    z_min = vpar", "xc = [0.0, cpar.imx]\n    yc = [0.0, cpar.imx]\n\n    z_min = vpar")
# ---- C25
m("C25", "ray_tracing.py", "n = np.dot(a2, glass_direction)", "n = np.dot(transformed_direction, glass_direction)")
m("C25", "ray_tracing.py", "refractive_index_medium2 / refractive_index_medium3", "refractive_index_medium1 / refractive_index_medium3")
m("C25", "ray_tracing.py", "d2 = distance_param / abs_dot_product", "d2 = distance_param / abs_dot_product\n    d2 = d2 + 0.0", 0)
m("C25", "ray_tracing.py", "c_param = np.linalg.norm(glass_vector) + distance_param", "c_param = np.linalg.norm(glass_vector)")
m("C25", "multimed.py", "z0 = dist_cam_glas + d\n", "z0 = dist_cam_glas\n")
m("C25", "multimed.py", "temp = cross_c - renorm_glass\n    temp = cross_p - temp", "temp = cross_c + renorm_glass\n    temp = cross_p - temp")
m("C25", "imgcoord.py", "y = -cal.int_par.cc * np.dot(dm[:, 1], (pos - origin)) / deno", "y = -cal.int_par.cc * np.dot(dm[1, :], (pos - origin)) / deno")
m("C25", "imgcoord.py", "    x = -cal.int_par.cc * np.dot(dm[:, 0], (pos - origin)) / deno\n    y = -cal.int_par.cc * np.dot(dm[:, 1], (pos - origin)) / deno\n", "    w = dm.T @ (pos - origin)\n    x = -cal.int_par.cc * w[0] / deno\n    y = -cal.int_par.cc * w[1] / deno\n", 0)
m("C25", "imgcoord.py", "pos_t = np.r_[x_t, y_t, pos_t[2]]", "pos_t = np.r_[x_t, y_t, 0.0]")
m("C25", "imgcoord.py", "x, y = flat_to_dist(x, y, cal)", "x, y = flat_to_dist(y, x, cal)")
m("C25", "imgcoord.py", "out[i, 0], out[i, 1] = img_coord(orig_pos[i], cal, mm)", "out[i] = img_coord(orig_pos[i], cal, mm)", 0)
m("C25", "imgcoord.py", "out[i, 0], out[i, 1] = img_coord(orig_pos[i], cal, mm)", "out[i, 0], out[i, 1] = img_coord(orig_pos[0], cal, mm)")
m("C25", "imgcoord.py", "    for i, row in enumerate(orig_pos):\n        out[i, 0], out[i, 1] = flat_image_coord(row, cal, mm)\n\n    return out", "    return np.array([flat_image_coord(row, cal, mm) for row in orig_pos])", 0)
m("C25", "multimed.py", "renorm_glass = glass_direction * (-pos_t[2] / norm_glass_direction)", "renorm_glass = glass_direction * (pos_t[2] / norm_glass_direction)")
# ---- C03
m("C03", "calibration.py", "dm[0, 2] = sp\n", "dm[0, 2] = -sp\n")
m("C03", "calibration.py", "dm[1, 1] = co * ck - so * sp * sk", "dm[1, 1] = co * ck + so * sp * sk")
m("C03", "calibration.py", 'self.ext_par["omega"], self.ext_par["phi"], self.ext_par["kappa"] = o_p_k_np\n        self.update_rotation_matrix()', 'self.ext_par["omega"], self.ext_par["phi"], self.ext_par["kappa"] = o_p_k_np')
m("C03", "calibration.py", 'self.ext_par["omega"], self.ext_par["phi"], self.ext_par["kappa"] = o_p_k_np\n        self.update_rotation_matrix()', 'self.update_rotation_matrix()\n        self.ext_par["omega"], self.ext_par["phi"], self.ext_par["kappa"] = o_p_k_np\n')
m("C03", "calibration.py", 'self.ext_par["omega"], self.ext_par["phi"], self.ext_par["kappa"] = o_p_k_np\n        self.update_rotation_matrix()', 'for nm, v in zip(("omega", "phi", "kappa"), o_p_k_np):\n            self.ext_par[nm] = v\n        self.update_rotation_matrix()', 0)
m("C03", "orientation.py", "    cal.update_rotation_matrix()\n\n    return (x_ders, y_ders)", "    return (x_ders, y_ders)", 0)
m("C03", "orientation.py", "    cal.update_rotation_matrix()\n\n    return stopflag", "    return stopflag")
m("C03", "orientation.py", "    cal.update_rotation_matrix()\n\n    return stopflag", "    if stopflag:\n        cal.update_rotation_matrix()\n\n    return stopflag")
m("C03", "orientation.py", "    if stopflag:\n        cal.update_rotation_matrix()\n        cal.copy(cal_in)", "    if stopflag:\n        cal.copy(cal_in)")
m("C03", "orientation.py", "    if stopflag:\n        cal.update_rotation_matrix()\n        cal.copy(cal_in)", "    if stopflag:\n        cal.set_angles(cal.get_angles())\n        cal.copy(cal_in)", 0)
m("C03", "calibration.py", """        if attr_name in ("omega", "phi", "kappa"):
            self.update_rotation_matrix()""", """        if attr_name in ("omega", "phi"):
            self.update_rotation_matrix()""")

# ---- C08
m("C08", "trafo.py", "            - ap[3] * (r**2 + 2 * xq**2)\n            - two_p2 * xq * yq\n        )\n\n        yq", "            - ap[3] * (r**2 + 2 * xq**2)\n            - two_p1 * xq * yq\n        )\n\n        yq")
m("C08", "trafo.py", "    r = rq\n    x1 = (", "    x1 = (", 0)
m("C08", "trafo.py", "    y1 = np.cos(ap[6]) * y\n", "    y1 = np.cos(ap[6]) * y + 0 * x\n", 0)
m("C08", "trafo.py", "    y1 = np.cos(ap[6]) * y\n", "    y1 = y\n")
m("C08", "trafo.py", "        + 2 * ap[4] * x * y\n    )\n    dy", "        + ap[4] * x * y\n    )\n    dy")
m("C08", "trafo.py", "    x += dx\n    y += dy\n\n    x1 = ap[5] * x - np.sin(ap[6]) * y", "    x1 = ap[5] * (x + dx) - np.sin(ap[6]) * (y + dy)\n    y = y + dy", 0)
m("C08", "trafo.py", "    flat_x -= cal.int_par.xh\n", "    flat_x -= cal.int_par.yh\n")
m("C08", "trafo.py", "    flat_x += cal.int_par.xh\n    flat_y += cal.int_par.yh\n", "")
m("C08", "trafo.py", "pixel[:, 1] = (imy / 2.0) - (metric[:, 1] / pix_y)", "pixel[:, 1] = (imy / 2.0) - (metric[:, 1] / pix_x)")
m("C08", "trafo.py", "y_metric = (float(imy) / 2.0 - y_pixel) * pix_y", "y_metric = -(y_pixel - float(imy) / 2.0) * pix_y", 0)
m("C08", "trafo.py", "y_metric = (float(imy) / 2.0 - y_pixel) * pix_y", "y_metric = (float(imy) // 2.0 - y_pixel) * pix_y")
m("C08", "trafo.py", "    pixel = np.zeros_like(metric)\n    pixel[:, 0] = (metric[:, 0] / pix_x) + (imx / 2.0)\n    pixel[:, 1] = (imy / 2.0) - (metric[:, 1] / pix_y)\n", "    pixel = np.zeros_like(metric)\n    for i in range(metric.shape[0]):\n        pixel[i, 0] = (metric[i, 0] / pix_x) + (imx / 2.0)\n        pixel[i, 1] = (imy / 2.0) - (metric[i, 1] / pix_y)\n", 0)
m("C08", "trafo.py", "        r = rq\n        common", "        r = 0.5 * (r + rq)\n        common", 0)

# ---- C24
m("C24", "multimed.py", "zout = Z + np.sum(d[1:nlay])", "zout = Z + np.sum(d[:nlay])")
m("C24", "multimed.py", "zout = Z + np.sum(d[1:nlay])", "zout = Z + np.sum(d[:nlay]) - d[0]", 0)
m("C24", "multimed.py", "np.sin(beta1) * n1 / n2[:nlay])", "np.sin(beta1) * n1 / n2[0])")
m("C24", "multimed.py", "        rq += rdiff\n", "        rq += 0.7 * rdiff\n", 0)
m("C24", "multimed.py", "(z0 - d[0]) * np.tan(beta1)", "z0 * np.tan(beta1)")
m("C24", "multimed.py", "if ir >= nr - 1:", "if ir > nr - 1:", 0)
m("C24", "multimed.py", "if ir >= nr - 1:", "if ir + 1 >= nr:", 0)
m("C24", "multimed.py", "if temp[2] < 0 or iz >= nz - 1:", "if iz >= nz - 1:")
m("C24", "multimed.py", "        ir * nz + (iz + 1),\n        (ir + 1) * nz + iz,", "        (ir + 1) * nz + iz,\n        ir * nz + (iz + 1),")
m("C24", "multimed.py", "cal.mmlut_data.flat[i * nz + j] =", "cal.mmlut_data.flat[i * nr + j] =")
m("C24", "multimed.py", "cal.mmlut_data.flat[i * nz + j] =", "cal.mmlut_data[i, j] =", 0)
m("C24", "multimed.py", "np.empty((nr, nz), dtype=np.float64)", "np.empty((nz, nr), dtype=np.float64)")
m("C24", "multimed.py", "    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)", "    if cal.mmlut_data.shape == (0, 0):\n        cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)")
m("C24", "multimed.py", "    Ri = np.arange(nr) * rw\n", "    Ri = np.arange(1, nr + 1) * rw\n")
m("C24", "multimed.py", "Zi = np.arange(nz) * rw + z_min_t", "Zi = np.arange(nz) * rw + z_min")
m("C24", "multimed.py", "            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)", "            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal, cpar.mm, xyz)")
m("C24", "multimed.py", "        if mmf > 0:\n", "        if mmf >= 0:\n")
m("C24", "multimed.py", "    cal.mmlut.origin = np.r_[cal_t.ext_par.x0, cal_t.ext_par.y0, z_min_t]", "    cal.mmlut.origin = np.r_[cal_t.ext_par.x0, cal_t.ext_par.y0, z_min]")
m("C24", "multimed.py", "    for i in range(nr):\n        for j in range(nz):\n            xyz = ", "    for i in range(nr):\n        for j in range(nz - 1):\n            xyz = ")
m("C24", "multimed.py", "cal_t.ext_par.z0 = trans_cam_point(\n                cal.ext_par, cpar.mm, cal.glass_par, xyz\n            )\n\n            if xyz_t[2] < z_min_t:\n                z_min_t = xyz_t[2]\n            if xyz_t[2] > z_max_t:\n                z_max_t = xyz_t[2]\n\n            R = vec_norm(\n                np.r_[xyz_t[0] - cal_t.ext_par.x0, xyz_t[1] - cal_t.ext_par.y0, 0]\n            )\n\n            if R > Rmax:\n                Rmax = R\n\n    # round", "_ = trans_cam_point(\n                cal.ext_par, cpar.mm, cal.glass_par, xyz\n            )\n\n            if xyz_t[2] < z_min_t:\n                z_min_t = xyz_t[2]\n            if xyz_t[2] > z_max_t:\n                z_max_t = xyz_t[2]\n\n            R = vec_norm(\n                np.r_[xyz_t[0] - cal_t.ext_par.x0, xyz_t[1] - cal_t.ext_par.y0, 0]\n            )\n\n            if R > Rmax:\n                Rmax = R\n\n    # round", 0)

# ---- C06
m("C06", "parameters.py", "cnx, cny, cn, csumg, corrmin, eps0 = [", "cn, cnx, cny, csumg, corrmin, eps0 = [")
m("C06", "parameters.py", "return cls(x_lay, z_min_lay, z_max_lay, cn, cnx, cny, csumg, eps0, corrmin)", "return cls(x_lay, z_min_lay, z_max_lay, cn, cnx, cny, csumg, corrmin, eps0)")
m("C06", "parameters.py", "        img_name = tmp[0::2]\n        img_ori0 = tmp[1::2]\n        tiff_flag = int(file.readline().strip())\n        pair_flag = int(file.readline().strip())\n        chfield = int(file.readline().strip())\n\n    return Cal", "        img_name = tmp[:num_cams]\n        img_ori0 = tmp[num_cams:]\n        tiff_flag = int(file.readline().strip())\n        pair_flag = int(file.readline().strip())\n        chfield = int(file.readline().strip())\n\n    return Cal")
m("C06", "parameters.py", "                dangle = float(fpp.readline().rstrip())\n                dacc = float(fpp.readline().rstrip())", "                dacc = float(fpp.readline().rstrip())\n                dangle = float(fpp.readline().rstrip())")
m("C06", "parameters.py", "        track_par.dn,\n        track_par.dnx,", "        track_par.dnx,\n        track_par.dn,")
m("C06", "parameters.py", "\\n{targ.nxmax}\\n{targ.nymin}", "\\n{targ.nymin}\\n{targ.nxmax}")
m("C06", "parameters.py", "return cls(**{**data, \"mm\": MultimediaPar.from_dict(mm_data)})", "return cls(**{**data, \"mm\": MultimediaPar()})")
m("C06", "parameters.py", "            ret.hp_flag = int(par_file.readline().strip())\n            ret.all_cam_flag = int(par_file.readline().strip())", "            ret.all_cam_flag = int(par_file.readline().strip())\n            ret.hp_flag = int(par_file.readline().strip())")
m("C06", "parameters.py", "            ret.mm.n2[0] = float(par_file.readline().strip())\n            ret.mm.n3 = float(par_file.readline().strip())", "            n2, n3 = (float(par_file.readline().strip()) for _ in range(2))\n            ret.mm.n2[0] = n2\n            ret.mm.n3 = n3", 0)
m("C06", "parameters.py", "            for _ in range(ret.num_cams):\n                ret.img_base_name.append(par_file.readline().strip())\n                ret.cal_img_base_name.append(par_file.readline().strip())", "            names = [par_file.readline().strip() for _ in range(2 * ret.num_cams)]\n            ret.img_base_name = names[::2]\n            ret.cal_img_base_name = names[1::2]", 0)
m("C06", "parameters.py", "            for _ in range(ret.num_cams):\n                ret.img_base_name.append(par_file.readline().strip())", "            for _ in range(TR_MAX_CAMS):\n                ret.img_base_name.append(par_file.readline().strip())")
m("C06", "parameters.py", "        self.imx = imsize[0]\n        self.imy = imsize[1]", "        self.imx, self.imy = imsize", 0)
m("C06", "parameters.py", "        return self.dvymax\n", "        return self.dvxmax\n")
m("C06", "parameters.py", "                for _ in range(TR_MAX_CAMS):  # todo - make it no. cameras\n                    ret.gvthresh.append(int(file.readline()))\n", "                ret.gvthresh = [int(file.readline()) for _ in range(TR_MAX_CAMS)]\n", 0)
m("C06", "parameters.py", "                for _ in range(TR_MAX_CAMS):  # todo", "                for _ in range(TR_MAX_CAMS - 1):  # todo")
m("C06", "parameters.py", "    def to_yaml(self, file_path: Path):\n        \"\"\"Write parameters to YAML file.\"\"\"", "    def to_yaml(self, file_path: Path):\n        \"\"\"Write parameters to YAML file.\"\"\"\n        data = {k: v for k, v in asdict(self).items() if v}", 0)
m("C06", "parameters.py", "        with open(filename, \"r\", encoding=\"utf-8\") as f:\n            x_lay.append(float(f.readline()))\n            z_min_lay.append(float(f.readline()))\n            z_max_lay.append(float(f.readline()))\n            x_lay.append(float(f.readline()))\n            z_min_lay.append(float(f.readline()))\n            z_max_lay.append(float(f.readline()))\n            cnx,", "        with open(filename, \"r\", encoding=\"utf-8\") as f:\n            for _ in range(2):\n                for lst in (x_lay, z_min_lay, z_max_lay):\n                    lst.append(float(f.readline()))\n            cnx,", 0)
m("C06", "parameters.py", "        with open(filename, \"r\", encoding=\"utf-8\") as f:\n            x_lay.append(float(f.readline()))", "        with open(filename, \"r\", encoding=\"utf-8\") as fh:\n            f = iter(fh)\n            vals = [float(next(f)) for _ in range(12)]\n            return cls(vals[0:6:3], vals[1:6:3], vals[2:6:3], vals[8], vals[6], vals[7], vals[9], vals[11], vals[10])\n            x_lay.append(float(f.readline()))", 0)
m("C06", "parameters.py", "        with open(filename, \"r\", encoding=\"utf-8\") as f:\n            x_lay.append(float(f.readline()))", "        with open(filename, \"r\", encoding=\"utf-8\") as fh:\n            vals = [float(l) for l in fh.readlines()]\n            return cls(vals[0:6:3], vals[1:6:3], vals[2:6:3], vals[8], vals[6], vals[7], vals[9], vals[11], vals[10])\n            x_lay.append(float(f.readline()))", 0)
# ---- C04
m("C04", "calibration.py", "{ext_par['omega']:.8f} {ext_par['phi']:.8f}", "{ext_par['phi']:.8f} {ext_par['omega']:.8f}")
m("C04", "calibration.py", "ret.set_primary_point(data[15:18])", "ret.set_primary_point(data[14:17])")
m("C04", "calibration.py", "ret.glass_par = data[18:]", "ret.glass_par = data[-3:]", 0)
m("C04", "calibration.py", "        ret.set_pos(data[:3])\n        ret.set_angles(data[3:6])", "        head = data[0:6]\n        ret.set_angles(head[3:])\n        ret.set_pos(head[:3])", 0)
m("C04", "calibration.py", "{int_par.yh:.4f}\\n{int_par.cc:.4f}", "{int_par.cc:.4f}\\n{int_par.yh:.4f}")
m("C04", "calibration.py", "ret.set_decentering(np.array(addtmp[3:5]))", "ret.set_decentering(np.array(addtmp[4:6]))")
m("C04", "calibration.py", "            raise IOError(f\"File {ori_file} does not exist\")", "            return cls()")
m("C04", "calibration.py", "{added_par[3]:.8f} {added_par[4]:.8f}", "{added_par[3]:.8f}{added_par[4]:.8f}")
m("C04", "calibration.py", "    if add_file is None:\n        return True", "    if add_file is None:\n        return False")
m("C04", "calibration.py", "        for row in ext_par[\"dm\"]:\n            fp.write(f\"{row[0]:.7f} {row[1]:.7f} {row[2]:.7f}\\n\")", "        dm = ext_par[\"dm\"]\n        for i in range(3):\n            fp.write(\" \".join(\"%.7f\" % dm[i, j] for j in range(3)) + \"\\n\")", 0)
m("C04", "calibration.py", "            f\"{added_par[0]:.8f} {added_par[1]:.8f} {added_par[2]:.8f} \"\n            f\"{added_par[3]:.8f} {added_par[4]:.8f} {added_par[5]:.8f} {added_par[6]:.8f}\\n\"", "            \" \".join(f\"{v:.8f}\" for v in added_par) + \"\\n\"", 0)
m("C04", "calibration.py", "            self.added_par,\n            ori_file,\n            addpar_file,", "            self.added_par,\n            ori_file,\n            None,")
m("C04", "calibration.py", "np.array([0, 0, 0, 0, 0, 1, 0], dtype=np.float64)\n\n        # Add", "np.array([0, 0, 0, 0, 0, 0, 0], dtype=np.float64)\n\n        # Add")
# ---- C05
T = "tracking_frame_buf.py"
m("C05", T, "(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)", "(t.pnr, t.x, t.y, t.n, t.ny, t.nx, t.sumg, t.tnr)")
m("C05", T, "nx=int(line[4])", "nx=int(line[5])")
m("C05", T, "tnr=int(line[7])", "tnr=int(line[-1])", 0)
m("C05", T, "header=f\"{num_targets}\"", "header=f\"{num_targets + 1}\"")
m("C05", T, "header=f\"{num_targets}\"", "header=str(num_targets)", 0)
m("C05", T, "%4d %9.4f %9.4f %5d", "%4d %9.0f %9.4f %5d")
m("C05", T, "for t in targets[:num_targets]]", "for t in targets]")
m("C05", T, "        file_base = file_base.replace(\"#\", \"%05d\")\n    if \"%\" not", "        file_base = file_base.replace(\"#\", \"%04d\")\n    if \"%\" not")
m("C05", T, "cor_buf[targets].p = vals[-4:].astype(int)", "cor_buf[targets].p = vals[4:8].astype(int)", 0)
m("C05", T, "path_buf[targets].x = vals[1:-4]", "path_buf[targets].x = vals[0:3]")
m("C05", T, "path_buf[targets].prio = prio_vals[-1].astype(int)", "path_buf[targets].prio = int(prio_vals[5])", 0)
m("C05", T, "path_buf[targets].prio = prio_vals[-1].astype(int)", "path_buf[targets].prio = prio_vals[0].astype(int)")
m("C05", T, "np.fromstring(prio_line, dtype=float", "np.fromstring(linkage_line, dtype=float")
m("C05", T, "path_buf[targets].next_frame = linkage_vals[1]", "path_buf[targets].next_frame = linkage_vals[0]")
m("C05", T, "                f\"{cor_buf[pix].p[0]} {cor_buf[pix].p[1]} \"", "                f\"{cor_buf[pix].p[1]} {cor_buf[pix].p[0]} \"")
m("C05", T, "f\"{pix + 1} {path_buf", "f\"{pix} {path_buf")
m("C05", T, "prio_file.write(f\"{num_parts}\\n\")", "prio_file.write(f\"{num_parts + 1}\\n\")")
m("C05", T, "        for pix in range(num_parts):\n            linkage", "        for pix in range(1, num_parts):\n            linkage")
m("C05", T, "            if prio_fname is not None:\n                prio_file.write(\n", "            if prio_fname is not None and path_buf[pix].prio < 4:\n                prio_file.write(\n")
m("C05", T, "                f\"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} \"\n                f\"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} \"\n                f\"{path_buf[pix].x[2]:.3f}\\n\"\n            )\n\n            corres", "                \"%d %d %.3f %.3f %.3f\\n\" % ((path_buf[pix].prev_frame, path_buf[pix].next_frame) + tuple(path_buf[pix].x))\n            )\n\n            corres", 0)
m("C05", T, "                target_file_base[cam],\n                frame_num,", "                target_file_base[0],\n                frame_num,")
m("C05", T, "self.num_targets[cam],\n                target", "self.num_targets[0],\n                target")
m("C05", T, "self.targets[cam] = read_targets(target_file_base[cam], frame_num)", "self.targets[cam] = read_targets(target_file_base[self.num_cams - 1 - cam], frame_num)")
m("C05", T, "            return frame.read(\n                self.corres_file_base,\n                self.linkage_file_base,\n                self.prio_file_base,", "            return frame.read(\n                self.corres_file_base,\n                self.prio_file_base,\n                self.linkage_file_base,")
m("C05", T, "        return frame.write(\n            self.corres_file_base,\n            self.linkage_file_base,\n            self.prio_file_base,", "        return frame.write(\n            self.corres_file_base,\n            self.linkage_file_base,\n            self.linkage_file_base,")
m("C05", T, "        linkagein.readline()\n", "")
m("C05", T, "            linkage_line = linkagein.readline()\n", "            linkage_line = linkagein.readline()\n            linkage_line = linkagein.readline()\n")
m("C05", T, "fname = f\"{prio_file_base}.{frame_num}\"\n        try", "fname = f\"{linkage_file_base}.{frame_num}\"\n        try")
m("C05", T, "        linkage_file = open(linkage_fname, \"w\", encoding=\"utf8\")\n        linkage_file.write(f\"{num_parts}\\n\")", "        linkage_file = open(linkage_fname, \"w\", encoding=\"utf8\")\n        print(num_parts, file=linkage_file)", 0)

# ---- C07
C, P, T = "calibration.py", "parameters.py", "tracking_frame_buf.py"
m("C07", C, 'and (e1["phi"] == e2["phi"])', 'and (e1["phi"] == e1["phi"])')
m("C07", C, 'and (e1["phi"] == e2["phi"])\n', '')
m("C07", C, 'and (e1["phi"] == e2["phi"])', 'and (e1["phi"] == e2["omega"])')
m("C07", C, 'atol=1e-6)', 'atol=1e-1)')
m("C07", C, 'np.allclose(e1["dm"], e2["dm"], atol=1e-6)', 'abs(e1["dm"] - e2["dm"]).max() < 1e-6', 0)
m("C07", C, 'np.allclose(e1["dm"], e2["dm"], atol=1e-6)', 'np.allclose(e1["dm"][:2], e2["dm"][:2], atol=1e-6)')
m("C07", C, 'return np.array_equal(g1, g2)', 'return np.allclose(g1, g2)')
m("C07", C, 'return np.array_equal(g1, g2)', 'return bool((g1 == g2).any())')
m("C07", C, 'return np.array_equal(g1, g2)', 'return bool((g1 == g2).all())', 0)
m("C07", C, 'return np.array_equal(g1, g2)', 'return bool(np.all(np.asarray(g1) == np.asarray(g2)))', 0)
m("C07", C, 'return np.array_equal(g1, g2)', 'return all(x == y for x, y in zip(g1, g2))', 0)
m("C07", C, 'return np.array_equal(a1, a2)', 'return np.array_equal(a1[:5], a2[:5])')
m("C07", C, 'return np.array_equal(a1, a2)', 'for i in range(7):\n        if a1[i] != a2[i]:\n            return False\n    return True', 0)
m("C07", C, 'return np.array_equal(a1, a2)', 'for i in range(6):\n        if a1[i] != a2[i]:\n            return False\n    return True')
m("C07", C, '        and compare_glass(c1.glass_par, c2.glass_par)\n', '')
m("C07", C, 'compare_glass(c1.glass_par, c2.glass_par)', 'compare_glass(c1.glass_par, c1.glass_par)')
m("C07", C, '    return (\n        compare_exterior(c1.ext_par, c2.ext_par)\n', '    if not compare_exterior(c1.ext_par, c2.ext_par):\n        return False\n    return (\n        True\n', 0)
m("C07", P, "return all(\n        getattr(sp1, field) == getattr(sp2, field)", "return any(\n        getattr(sp1, field) == getattr(sp2, field)")
m("C07", P, "for field in SequencePar.__annotations__\n", "for field in ('img_base_name', 'first')\n")
m("C07", P, "for field in SequencePar.__annotations__\n", "for field in ('img_base_name', 'first', 'last')\n", 0)
m("C07", P, "return all(getattr(t1, field) == getattr(t2, field) for field in t1.__annotations__)", "return t1 == t2", 0)
m("C07", P, "return all(getattr(t1, field) == getattr(t2, field) for field in t1.__annotations__)", "return all(abs(getattr(t1, field) - getattr(t2, field)) < 1e-6 for field in t1.__annotations__)")
m("C07", P, "return all(getattr(t1, field) == getattr(t2, field) for field in t1.__annotations__)", "for name in t1.__annotations__:\n        if getattr(t1, name) != getattr(t2, name):\n            return False\n    return True", 0)
m("C07", P, "return all(getattr(t1, field) == getattr(t2, field) for field in t1.__annotations__)", "for name in t1.__annotations__:\n        if getattr(t1, name) > getattr(t2, name):\n            return False\n    return True")
m("C07", P, "        and c1.chfield == c2.chfield\n", "")
m("C07", P, "(mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.n2), list(mm_np1.d))", "(mm_np1.nlay, mm_np1.n1, mm_np1.n1, list(mm_np1.n2), list(mm_np1.d))")
m("C07", P, "list(mm_np1.d)) == (\n        mm_np2.nlay,\n        mm_np2.n1,\n        mm_np2.n3,\n        list(mm_np2.n2),\n        list(mm_np2.d),\n", "mm_np1.d[0]) == (\n        mm_np2.nlay,\n        mm_np2.n1,\n        mm_np2.n3,\n        list(mm_np2.n2),\n        mm_np2.d[0],\n")
m("C07", P, "return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.n2), list(mm_np1.d)) == (", "return all(x == y for x, y in zip(mm_np1.n2, mm_np2.n2)) and (mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.d)) == (mm_np2.nlay, mm_np2.n1, mm_np2.n3, list(mm_np2.d))\n    return (1, 2) == (")
m("C07", T, "return (c1 == c2).all()", "return bool((c1.nr == c2.nr).all() and (c1.p == c2.p).all())", 0)
m("C07", T, "return (c1 == c2).all()", "return bool((c1.p == c2.p).all())")
m("C07", T, "return (c1 == c2).all()", "return (c1 == c2).any()")
m("C07", T, "            and self.sumg == __value.sumg  # type: ignore\n", "")
m("C07", T, "and self.tnr == __value.tnr  # type: ignore", "and (self.tnr == __value.tnr or self.tnr == -1)")
m("C07", T, "return t1 == t2", "return t1.pnr == t2.pnr and t1.x == t2.x")
m("C07", T, "(self.x == other.x).all()", "(self.x == other.x).any()")
m("C07", T, "            and (self.decis == other.decis)\n", "")
m("C07", T, "(self.x == other.x).all()", "self.x[0] == other.x[0] and self.x[1] == other.x[1]")

# ---- C28
O = "orientation.py"
m("C28", O, "for pair in range(cam + 1, num_cams):", "for pair in range(cam + 1, min(num_cams, cam + 3)):")
m("C28", O, "            num_used_pairs += 1\n            tmp, point = skew", "            num_used_pairs = num_used_pairs + 1\n            tmp, point = skew", 0)
m("C28", O, "        if targets[cam][0] != COORD_UNUSED:\n", "        if True:\n", 0)
m("C28", O, "            if targets[pair][0] == COORD_UNUSED:\n                continue", "            if targets[pair][0] == COORD_UNUSED:\n                break")
m("C28", O, "vertices[cam], directs[cam], vertices[pair], directs[pair]", "vertices[cam], directs[cam], vertices[pair], directs[cam]")
m("C28", O, "    dtot /= num_used_pairs\n", "    dtot /= num_cams * (num_cams - 1) / 2\n")
m("C28", O, "            dtot += tmp\n            point_tot += point\n", "            dtot += tmp\n            for k in range(3):\n                point_tot[k] += point[k]\n", 0)
m("C28", O, "            dtot += tmp\n            point_tot += point\n", "            dtot = max(dtot, tmp)\n            point_tot += point\n")
m("C28", O, "targets[cam][0], targets[cam][1], cals[cam], multimed_pars", "targets[cam][0], targets[cam][1], cals[0], multimed_pars")
m("C28", O, "if pt % 2 == 1:\n            dist", "if pt % 2 == 1 or pt == 2:\n            dist")
m("C28", O, "len_err_tot / (0.5 * num_targs)", "len_err_tot / num_targs")
m("C28", O, "res[pt, :] = epi_mm_2D(targ[0][0], targ[0][1], cals[0], mm_par, vparam)", "res[pt] = epi_mm_2D(targ[0][0], targ[0][1], cals[0], mm_par, vparam)", 0)
m("C28", O, "res[pt, :] = epi_mm_2D(targ[0][0], targ[0][1], cals[0], mm_par, vparam)", "res[pt, :] = epi_mm_2D(targ[0][1], targ[0][1], cals[0], mm_par, vparam)")
m("C28", O, "rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)", "rcm[pt], res[pt] = point_position(targets[0], num_cams, mm_par, cals)")
m("C28", O, "rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)", "d, pos = point_position(targets[pt], num_cams, mm_par, cals)\n        res[pt, :] = pos\n        rcm[pt] = d", 0)
m("C28", O, "    # Check intersection distance for each pair of rays and find position\n    for cam in range(num_cams):\n        if targets[cam][0] == COORD_UNUSED:\n            continue\n\n        for pair in range(cam + 1, num_cams):\n            if targets[pair][0] == COORD_UNUSED:\n                continue\n",
  "    seen = [c for c in range(num_cams) if targets[c][0] != COORD_UNUSED]\n    for n, cam in enumerate(seen):\n        for pair in seen[n + 1:]:\n", 0)
# ---- C01
def m1(fn, old, new, expect=1):
    m("C01", fn, old, new, expect)


m1("multimed.py", "    pos = pos.astype(np.float64)\n\n    return fast_trans", "    pos = pos.astype(np.float64, copy=False)\n    pos -= origin * 0.0\n\n    return fast_trans")
m1("multimed.py", "    pos = pos.astype(np.float64)\n\n    return fast_trans", "    pos = pos.astype(np.float64)\n    pos -= origin * 0.0\n\n    return fast_trans", 0)
m1("multimed.py", "    renorm_glass = glass_dir * (dist_cam_glas / dist_o_glass)\n", "    glass_dir /= dist_o_glass\n    renorm_glass = glass_dir * dist_cam_glas\n")
m1("multimed.py", "    cross_p = pos - renorm_glass\n", "    pos -= renorm_glass\n    cross_p = pos\n")
m1("multimed.py", "    # If the norm of the vector temp is greater than zero", "    pos_t[0] = -pos_t[0]\n    pos_t[0] = -pos_t[0]\n    # If the norm")
m1("ray_tracing.py", "    transformed_direction = distortion_matrix @ unit_vector(initial_ray_direction)\n", "    glass_vector /= np.linalg.norm(glass_vector)\n    transformed_direction = distortion_matrix @ unit_vector(initial_ray_direction)\n")
m1("ray_tracing.py", "    transformed_direction_scaled = transformed_direction * d1\n    Xb = primary_point + transformed_direction_scaled", "    transformed_direction_scaled = transformed_direction * d1\n    primary_point += transformed_direction_scaled\n    Xb = primary_point")
m1("ray_tracing.py", "    glass = np.ascontiguousarray(cal.glass_par)\n", "    glass = np.ascontiguousarray(cal.glass_par)\n    glass /= np.sqrt(glass[0] ** 2 + glass[1] ** 2 + glass[2] ** 2)\n")
m1("ray_tracing.py", "    glass = np.ascontiguousarray(cal.glass_par)\n", "    glass = np.ascontiguousarray(cal.glass_par).copy()\n    glass *= 1.0\n", 0)
m1("imgcoord.py", "    cal_t = Calibration(mmlut=cal.mmlut)\n", "    cal_t = Calibration(mmlut=cal.mmlut, ext_par=cal.ext_par)\n")
m1("imgcoord.py", "    dm = cal.ext_par.dm\n", "    cal.update_rotation_matrix()\n    dm = cal.ext_par.dm\n")
m1("epi.py", 'return np.sort(crd, order="x")', 'crd.sort(order="x")\n    return crd')
m1("epi.py", 'return np.sort(crd, order="x")', 'out = crd.copy()\n    out.sort(order="x")\n    return out', 0)
m1("epi.py", "    pos, v = ray_tracing(xl, yl, cal1, mmp)\n\n    # calculate min and max depth for position (valid only for one setup)\n    z_min =", "    pos, v = ray_tracing(xl, yl, cal1, mmp)\n    vpar.z_min_lay.sort()\n    z_min =")
m1("find_candidate.py", "        p2 = crd[j].pnr\n", "        p2 = crd[j].pnr\n        pix[p2].tnr = j\n")
m1("find_candidate.py", "        p2 = crd[j].pnr\n", "        p2 = crd[j].pnr\n        best = pix[p2]\n        best.sumg = max(best.sumg, 1)\n")
m1("find_candidate.py", "    j0 = find_start_point(crd, num, xa, vpar)\n", "    crd.sort(order='x')\n    j0 = find_start_point(crd, num, xa, vpar)\n")
m1("find_candidate.py", "    j0 = find_start_point(crd, num, xa, vpar)\n", "    eps = vpar.eps0\n    work = list(pix)\n    work.append(None)\n    j0 = find_start_point(crd, num, xa, vpar)\n", 0)
m1("trafo.py", "    metric = np.empty_like(pixel, dtype=np.float64)\n", "    metric = pixel\n")
m1("trafo.py", "    pixel = np.zeros_like(metric)\n", "    pixel = metric.view()\n")
m1("trafo.py", "    pixel = np.zeros_like(metric)\n", "    pixel = metric.copy()\n", 0)
m1("trafo.py", "    pixel[:, 0] = (metric[:, 0] / pix_x) + (imx / 2.0)\n    pixel[:, 1] =", "    np.divide(metric[:, 0], pix_x, out=metric[:, 0])\n    pixel[:, 0] = metric[:, 0] + (imx / 2.0)\n    pixel[:, 1] =")
m1("sortgrid.py", "                sorted_pix[i] = replace(pix[j], pnr=i)\n", "                pix[j].set_pnr(i)\n                sorted_pix[i] = pix[j]\n")
m1("sortgrid.py", "                sorted_pix[i] = replace(pix[j], pnr=i)\n", "                sorted_pix[i] = replace(pix[j])\n                sorted_pix[i].set_pnr(i)\n", 0)
m1("sortgrid.py", "                sorted_pix[i] = replace(pix[j], pnr=i)\n", "                found = pix.pop(j)\n                sorted_pix[i] = replace(found, pnr=i)\n")
m1("image_processing.py", "    img_hp = img | img_lp\n", "    img |= img_lp\n    img_hp = img\n")
m1("image_processing.py", "    img_hp = img | img_lp\n", "    img_hp = np.bitwise_or(img, img_lp, out=img)\n")
m1("image_processing.py", "    img_lp = ndimage.uniform_filter(\n        img,\n", "    img_lp = ndimage.uniform_filter(\n        img,\n        output=img,\n")
m1("image_processing.py", "    img_hp = img | img_lp\n", "    img_hp = img.copy()\n    img_hp |= img_lp\n", 0)
m1("tracking_frame_buf.py", "    try:\n        # Convert targets to a 2D", "    targets.sort(key=lambda t: t.y)\n    try:\n        # Convert targets to a 2D")
m1("tracking_frame_buf.py", "    try:\n        # Convert targets to a 2D", "    for t in targets:\n        t.pnr = max(t.pnr, 0)\n    try:\n        # Convert targets to a 2D")
m1("tracking_frame_buf.py", "    try:\n        # Convert targets to a 2D", "    targets = sorted(targets, key=lambda t: t.y)\n    targets.reverse()\n    try:\n        # Convert targets to a 2D", 0)
m1("calibration.py", "def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:\n", "def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:\n    rotation_matrix(e1)\n")
m1("orientation.py", "    sorted_targs = sortgrid(cal, cparam, len(ref_pts), ref_pts, eps, img_pts)\n", "    sorted_targs = sortgrid(cal, cparam, len(ref_pts), ref_pts, eps, img_pts)\n    for i, t in enumerate(img_pts):\n        t.tnr = i\n")
m1("segmentation.py", "def peak_fit(\n", "def peak_fit(\n", 0)
m1("track.py", "    point_x = p[ptv_point][0]", "    point_x = p[ptv_point][0]", 0) if False else None
CASES[:] = [c for c in CASES if c]
# ---- C02
def m2(fn, old, new, expect=1):
    m("C02", fn, old, new, expect)


CL, PR, FB = "calibration.py", "parameters.py", "tracking_frame_buf.py"
m2(CL, "ext_par = copy.deepcopy(Exterior)", "ext_par = Exterior")
m2(CL, "int_par = copy.deepcopy(Interior)", "int_par = copy.copy(Interior)", 0)
m2(CL, "int_par = copy.deepcopy(Interior)", "int_par = Interior.view(np.recarray)")
m2(CL, "added_par = np.array((0, 0, 0, 0, 0, 1, 0), dtype=np.float64)\n        if", "added_par = ap_52\n        if")
m2(CL, "added_par = np.array((0, 0, 0, 0, 0, 1, 0), dtype=np.float64)\n        if", "added_par = np.asarray(ap_52, dtype=np.float64)\n        if")
m2(CL, "added_par = np.array((0, 0, 0, 0, 0, 1, 0), dtype=np.float64)\n        if", "added_par = ap_52.copy()\n        if", 0)
m2(CL, "mmlut = copy.deepcopy(mm_lut)", "mmlut = mm_lut")
m2(CL, "        glass_par=None,\n", "        glass_par=np.array([0.0, 0.0, 1.0]),\n")
m2(CL, "new_copy.glass_par = self.glass_par.copy()", "new_copy.glass_par = self.glass_par")
m2(CL, "new_copy.added_par = self.added_par.copy()", "new_copy.added_par = self.added_par[:]")
m2(CL, "new_copy.added_par = self.added_par.copy()", "new_copy.added_par = np.array(self.added_par)", 0)
m2(CL, "new_copy.mmlut_data = self.mmlut_data.copy()", "new_copy.mmlut_data = self.mmlut_data")
m2(CL, "new_copy.ext_par = self.ext_par.copy()", "new_copy.ext_par = np.asarray(self.ext_par)")
m2(CL, 'return self.ext_par["dm"].copy()', 'return self.ext_par["dm"]')
m2(CL, "return self.added_par[:3].copy()", "return self.added_par[:3]")
m2(CL, "return self.added_par[3:5].copy()", "return np.array(self.added_par[3:5])", 0)
m2(CL, "return self.added_par[5:].copy()", "return np.asarray(self.added_par[5:])")
m2(CL, "return self.glass_par.copy()", "return self.glass_par")
m2(CL, "gvec = np.array(gvec, dtype=np.float64)", "gvec = np.asarray(gvec, dtype=np.float64)")
m2(CL, "self.added_par = ap52_array.astype(np.float64)", "self.added_par = np.asarray(ap52_array)")
m2(CL, "self.added_par = ap52_array.astype(np.float64)", "self.added_par = ap52_array.astype(np.float64, copy=False)")
m2(CL, "self.added_par = ap52_array.astype(np.float64)", "self.added_par[:] = ap52_array", 0)
m2(PR, "@dataclass\nclass MultimediaPar(Parameters):\n    \"\"\"Multimedia parameters.\"\"\"\n\n    nlay: int = 1\n    n1: float = 1.0\n    n2: List[float] = field(default_factory=lambda: [1.0])", "_ONE = [1.0]\n\n\n@dataclass\nclass MultimediaPar(Parameters):\n    \"\"\"Multimedia parameters.\"\"\"\n\n    nlay: int = 1\n    n1: float = 1.0\n    n2: List[float] = field(default_factory=lambda: _ONE)")
m2(PR, "@dataclass\nclass MultimediaPar(Parameters):\n    \"\"\"Multimedia parameters.\"\"\"\n\n    nlay: int = 1\n    n1: float = 1.0\n    n2: List[float] = field(default_factory=lambda: [1.0])", "_ONE = [1.0]\n\n\n@dataclass\nclass MultimediaPar(Parameters):\n    \"\"\"Multimedia parameters.\"\"\"\n\n    nlay: int = 1\n    n1: float = 1.0\n    n2: List[float] = field(default_factory=lambda: list(_ONE))", 0)
m2(PR, "    mm: MultimediaPar = field(default_factory=MultimediaPar)", "    mm: MultimediaPar = MultimediaPar()")
m2(PR, "            self.d = list(thickness)\n", "            self.d = thickness\n")
m2(PR, "        self.z_max_lay = list(z_max_lay)\n", "        self.z_max_lay = z_max_lay[:]\n", 0)
m2(PR, "        self.img_base_name[:] = new_name\n", "        self.img_base_name = new_name\n")
m2(FB, "self.path_info = [Pathinfo() for _ in range(max_targets)]", "self.path_info = [Pathinfo()] * max_targets")
m2(FB, "self.targets = [[Target() for _ in range(max_targets)] for _ in range(num_cams)]", "self.targets = [[Target() for _ in range(max_targets)]] * num_cams")
m2(FB, "self.targets = [[Target() for _ in range(max_targets)] for _ in range(num_cams)]", "self.targets = []\n        for _ in range(num_cams):\n            self.targets.append([Target() for _ in range(max_targets)])", 0)
m2(FB, "[Frame(num_cams, max_targets) for _ in range(buf_len)], maxlen", "[Frame(num_cams, max_targets)] * buf_len, maxlen")
m2(FB, "    x: np.ndarray = field(default_factory=lambda: np.zeros(3))", "    x: np.ndarray = field(default_factory=lambda: _ORIGIN)")
CASES[-1] = ("C02", FB, '@dataclass\nclass Pathinfo:\n    """Pathinfo structure for tracking."""\n\n    x: np.ndarray = field(default_factory=lambda: np.zeros(3))', '_ORIGIN = np.zeros(3)\n\n\n@dataclass\nclass Pathinfo:\n    """Pathinfo structure for tracking."""\n\n    x: np.ndarray = field(default_factory=lambda: _ORIGIN)', 1)
m2("track.py", "ref_path_inf.x = vec_copy(pos)", "ref_path_inf.x = pos")
m2("sortgrid.py", "sorted_pix = [Target() for _ in range(nfix)]", "sorted_pix = [Target()] * nfix")
m2("sortgrid.py", "sorted_pix = [Target() for _ in range(nfix)]", "empty = Target()\n    sorted_pix = [replace(empty) for _ in range(nfix)]", 0)
m2("segmentation.py", "    touch: list[int] = field(default_factory=list, repr=False)", "    touch = []")

# ---- C11
SG = "segmentation.py"


def mr(pid, fn, edits, expect=0):
    CASES.append((pid, fn, edits, "", expect))


def m11(old, new, expect=1):
    m("C11", SG, old, new, expect)


m11("and ny >= nymin\n", "and nx >= nymin\n")
m11("numpix >= nnmin\n                        and numpix <= nnmax", "nnmin <= numpix <= nnmax", 0)
m11("and numpix <= nnmax\n", "and numpix <= nxmax\n")
m11("and nx <= nxmax\n", "and nx <= nxmax + 1\n")
m11("                        and ny <= nymax\n", "")
m11("and sumg > sumg_min", "and sumg >= sumg_min", 0)
m11("        nxmin,\n        nxmax,\n        nymin,\n        nymax,\n        sumg_min,\n        xmin,", "        nymin,\n        nxmax,\n        nxmin,\n        nymax,\n        sumg_min,\n        xmin,")
m11("nxmin, nxmax = targ_par.nxmin, targ_par.nxmax", "nxmin, nxmax = targ_par.nxmin, targ_par.nymax")
m11("    thres = targ_par.gvthresh[num_cam]\n    disco = targ_par.discont\n\n    # Make sure", "    thres = targ_par.gvthresh[0]\n    disco = targ_par.discont\n\n    # Make sure")
m11("                                img0[yn, xn] = 0\n", "")
m11("                                img0[yn, xn] = 0\n", "                                if numpix > 1:\n                                    img0[yn, xn] = 0\n")
m11("                    img0[i, j] = 0\n", "")
m11("                                (gv > thres)\n", "                                (gv >= thres)\n")
m11("                                (gv > thres)\n                                and", "                                ")
m11("y += yn * (gv - thres)", "y += yn * gv")
m11("x += (xn) * (gv - thres)", "x += xn * gv - xn * thres", 0)
m11("                        y += 0.5\n", "")
m11("                        y /= sumg\n", "                        y /= sumg + numpix\n")
m11("pix.append([x, y, CORRES_NONE, n_targets, numpix, nx, ny, sumg])", "pix.append([x, y, CORRES_NONE, n_targets, numpix, ny, nx, sumg])")
m11("nx = xb - xa + 1", "nx = xb - xa")
m11("                                if yn > yb:\n                                    yb = yn\n", "                                if yn > yb:\n                                    yb = xn\n")
m11("                                if xn < xa:\n                                    xa = xn\n", "                                xa = min(xa, xn)\n", 0)
m11("                                if xn < xa:\n                                    xa = xn\n                                if xn > xb:\n                                    xb = xn\n", "                                if xn < xa:\n                                    xa = xn\n                                elif xn > xb:\n                                    xb = xn\n", 0)
m11("                                if xn < xa:\n                                    xa = xn\n                                if xn > xb:\n", "                                if xn < xa:\n                                    xa = xn\n                                if xn < xb:\n")
m11("                                sumg += gv\n", "                                sumg += gv - thres\n")
m11("                    sumg = int(gv)\n", "                    sumg = 0\n")
m11("                                numpix += 1\n", "                                numpix += n\n")
m11("Target(x=x, y=y, tnr=CORRES_NONE, pnr=pnr, n=numpix, nx=nx, ny=ny, sumg=sumg)\n        for x, y, _, pnr, numpix, nx, ny, sumg in pix", "Target(x=p[0], y=p[1], tnr=CORRES_NONE, pnr=p[3], n=p[4], nx=p[5], ny=p[6], sumg=p[7])\n        for p in pix", 0)
m11("Target(x=x, y=y, tnr=CORRES_NONE, pnr=pnr, n=numpix, nx=nx, ny=ny, sumg=sumg)\n        for x, y, _, pnr, numpix, nx, ny, sumg in pix", "Target(x=x, y=y, tnr=CORRES_NONE, pnr=pnr, n=nx, nx=numpix, ny=ny, sumg=sumg)\n        for x, y, _, pnr, numpix, nx, ny, sumg in pix")
m11("                    if (\n                        numpix >= nnmin\n                        and numpix <= nnmax\n", "                    if numpix < nnmin or numpix > nnmax:\n                        continue\n                    if (\n                        True\n", 0)
# peak_fit
m11("and (peaks[i].ymax - peaks[i].ymin + 1) >= targ_par.nymin", "and (peaks[i].xmax - peaks[i].xmin + 1) >= targ_par.nymin")
m11("and (peaks[i].xmax - peaks[i].xmin) < targ_par.nxmax", "and (peaks[i].xmax - peaks[i].xmin) <= targ_par.nxmax")
m11("and (peaks[i].xmax - peaks[i].xmin) < targ_par.nxmax", "and (peaks[i].xmax - peaks[i].xmin + 1) <= targ_par.nxmax", 0)
m11("            and peaks[i].n <= targ_par.nnmax\n", "")
m11("            and peaks[i].sumg > targ_par.sumg_min\n", "            and peaks[i].n > targ_par.sumg_min\n")
m11("            gv = img[n]\n            if gv <= thres:", "            gv = img[n]\n            if gv < thres:")
m11("            and peaks[i].sumg > targ_par.sumg_min\n", "            and peaks[i].sumg >= targ_par.sumg_min\n", 0)
m11("                            (gv > thres)\n                            and (xn >= xmin)", "                            (xn >= xmin)")
m11("                        if label_img[n] != 0:\n                            continue\n", "                        if label_img[n] == n_peaks:\n                            continue\n")
m11("            # skip already labeled pixel\n            if label_img[n] != 0:\n                continue\n", "")
m11("ptr_peak.y += i * gv", "ptr_peak.y += j * gv")
m11("                ptr_peak.x += j * gv\n", "                ptr_peak.x = ptr_peak.x + gv * j\n", 0)
m11("                if i > ptr_peak.ymax:\n                    ptr_peak.ymax = i\n", "                if i > ptr_peak.ymax:\n                    ptr_peak.ymax = j\n")
m11("                if i > ptr_peak.ymax:\n                    ptr_peak.ymax = i\n", "")
m11("            peaks[p2].y += peaks[i].y\n", "            peaks[p2].y += peaks[i].x\n")
m11("            if peaks[i].xmax > peaks[p2].xmax:\n", "            if peaks[i].xmax < peaks[p2].xmax:\n")
m11("pix[n_target].x = 0.5 + peaks[i].x / sumg", "pix[n_target].x = peaks[i].x / sumg")
m11("pix[n_target].nx = peaks[i].xmax - peaks[i].xmin + 1", "pix[n_target].nx = peaks[i].ymax - peaks[i].ymin + 1")
m11("            pix.append(Target())\n            pix[n_target].x = 0.5 + peaks[i].x / sumg\n            pix[n_target].y = 0.5 + peaks[i].y / sumg\n", "            pix.append(Target())\n            pix[n_target].y = 0.5 + peaks[i].y / sumg\n            pix[n_target].x = 0.5 + peaks[i].x / sumg\n", 0)
mr("C11", SG, [("def peak_fit(\n", "def _ok(targ_par, p):\n    w = p.xmax - p.xmin + 1\n    h = p.ymax - p.ymin + 1\n    return (\n        p.sumg > targ_par.sumg_min\n        and w >= targ_par.nxmin\n        and h >= targ_par.nymin\n        and w <= targ_par.nxmax\n        and h <= targ_par.nymax\n        and targ_par.nnmin <= p.n <= targ_par.nnmax\n    )\n\n\ndef peak_fit(\n"),
  ("            and peaks[i].sumg > targ_par.sumg_min\n            and (peaks[i].xmax - peaks[i].xmin + 1) >= targ_par.nxmin\n            and (peaks[i].ymax - peaks[i].ymin + 1) >= targ_par.nymin\n            and (peaks[i].xmax - peaks[i].xmin) < targ_par.nxmax\n            and (peaks[i].ymax - peaks[i].ymin) < targ_par.nymax\n            and peaks[i].n >= targ_par.nnmin\n            and peaks[i].n <= targ_par.nnmax\n", "            and _ok(targ_par, peaks[i])\n")])


# ---- C12
mr("C11", SG, [('            break  # its pixels now belong to the other target\n', '')], 1)
mr("C11", SG, [('            peaks[i].unr == 0\n            and peaks[i].sumg', '            peaks[i].sumg')], 1)
mr("C11", SG, [('            break  # its pixels now belong to the other target\n', ''), ('            # point 2\n', '            if peaks[p2].unr == p2:\n                continue\n')], 1)
mr("C11", SG, [('            break  # its pixels now belong to the other target\n', ''), ('            p2 = peaks[i].touch[j] - 1\n', '            if peaks[i].unr != 0:\n                break\n            p2 = peaks[i].touch[j] - 1\n')])
mr("C11", SG, [('            break  # its pixels now belong to the other target\n', ''), ('            p2 = peaks[i].touch[j] - 1\n', '            if peaks[i].unr != 0:\n                continue\n            p2 = peaks[i].touch[j] - 1\n')])
mr("C11", SG, [('            break  # its pixels now belong to the other target\n', '            done = True\n'), ('        for j in range(peaks[i].n_touch):\n            p2 =', '        done = False\n        for j in range(peaks[i].n_touch):\n            if done:\n                break\n            p2 =')])
mr("C11", SG, [('            if unify == 0:\n                non_unified += 1\n                continue\n', '            if unify != 1:\n                non_unified += 1\n                continue\n')])
mr("C11", SG, [('        for j in range(peaks[i].n_touch):\n            p2 = peaks[i].touch[j] - 1', '        pk = peaks[i]\n        for t in pk.touch:\n            p2 = t - 1')])
mr("C11", SG, [('        for j in range(peaks[i].n_touch):\n            p2 = peaks[i].touch[j] - 1', '        j = -1\n        while j + 1 < peaks[i].n_touch:\n            j += 1\n            p2 = peaks[i].touch[j] - 1')])
mr("C11", SG, [('            peaks[i].unr == 0\n            and peaks[i].sumg', '            not peaks[i].unr\n            and peaks[i].sumg')])
mr("C11", SG, [('        if (\n            peaks[i].unr == 0\n            and peaks[i].sumg', '        if peaks[i].unr > 0:\n            continue\n        if (\n            peaks[i].sumg')])
mr("C11", SG, [('            peaks[i].unr == 0\n            and peaks[i].sumg', '            peaks[i].unr < 1\n            and peaks[i].sumg')])
mr("C11", SG, [('            peaks[p2].n += peaks[i].n\n', '            src, dst = peaks[i], peaks[p2]\n            dst.n = dst.n + src.n\n')])
def m12(old, new, expect=1):
    if isinstance(old, list):
        mr("C12", "segmentation.py", old, expect)
    else:
        CASES.append(("C12", "segmentation.py", old, new, expect))


m12("    if xmin <= 0:\n        xmin = 1\n", "")
m12("    if xmin <= 0:\n        xmin = 1\n", "    if xmin < 0:\n        xmin = 1\n")
m12("    if ymin <= 0:\n        ymin = 1\n", "    if ymin <= 0:\n        ymin = 0\n")
m12("    imx = min(cpar.imx, img.shape[1])\n", "    imx = cpar.imx\n")
m12("    imx = min(cpar.imx, img.shape[1])\n    imy = min(cpar.imy, img.shape[0])\n", "    imx = min(cpar.imx, img.shape[0])\n    imy = min(cpar.imy, img.shape[1])\n")
m12("    if xmax >= imx:\n        xmax = imx - 1\n", "    if xmax >= imx:\n        xmax = imx\n")
m12("    if xmax >= imx:\n        xmax = imx - 1\n", "    if xmax > imx:\n        xmax = imx - 1\n")
m12("    if ymax >= imy:\n        ymax = imy - 1\n", "    if ymax >= imx:\n        ymax = imx - 1\n")
m12("if xn >= xmax or yn >= ymax or xn < 0 or yn < 0:", "if xn > xmax or yn > ymax or xn < 0 or yn < 0:")
m12("    for i in range(ymin, ymax):\n        for j in range(xmin, xmax):\n            # note", "    for i in range(ymin, ymax + 1):\n        for j in range(xmin, xmax):\n            # note")
m12("and (xn > xmin - 1)", "and (xn > xmin - 2)")
m12("and (yn > ymin - 1)", "and (xn > ymin - 1)")
m12([("if xn >= xmax or yn >= ymax or xn < 0 or yn < 0:", "if xn >= xmax or xn < 0 or yn < 0:"), ], None)
m12([("if xn >= xmax or yn >= ymax or xn < 0 or yn < 0:", "if yn >= ymax or xn < 0 or yn < 0:"), ], None)
m12("                                and (gvref + disco >= img[yn - 1, xn])", "                                and (gvref + disco >= img[yn - 2, xn])")
m12("and (gv >= img0[(i - 1), j + 1])", "and (gv >= img0[(i - 1), j + 2])")
m12("        xmin,\n        xmax,\n        ymin,\n        ymax,\n    )\n", "        xmin,\n        xmax,\n        ymax,\n        ymin,\n    )\n")
m12("    if xmin <= 0:\n        xmin = 1\n    if ymin <= 0:\n        ymin = 1\n", "    xmin = max(xmin, 1)\n    ymin = max(1, ymin)\n", 0)
m12("    if xmax >= imx:\n        xmax = imx - 1\n", "    xmax = min(xmax, imx - 1)\n", 0)
m12("    imx = min(cpar.imx, img.shape[1])\n    imy = min(cpar.imy, img.shape[0])\n", "    rows, cols = img.shape\n    imx = cpar.imx if cpar.imx < cols else cols\n    imy = cpar.imy if cpar.imy < rows else rows\n", 0)
m12("    for i in range(ymin, ymax):\n        for j in range(xmin, xmax):\n            # note", "    for i in range(ymin, ymax):\n        assert i >= 1\n        for j in range(xmin, xmax):\n            # note", 0)
m12("                        for n in range(4):\n                            xn = x4[n]\n                            yn = y4[n]\n", "                        for xn, yn in zip(x4, y4):\n", 0)
m12("                            if xn >= xmax or yn >= ymax or xn < 0 or yn < 0:\n                                continue\n", "                            if not (xmin <= xn < xmax and ymin <= yn < ymax):\n                                continue\n", 0)
m12([("                            if xn >= xmax or yn >= ymax or xn < 0 or yn < 0:\n                                continue\n", "                            if not (xmin <= xn < xmax and ymin <= yn < ymax):\n                                continue\n"), ("                                and (xn > xmin - 1)\n                                and (xn < xmax + 1)\n                                and (yn > ymin - 1)\n                                and (yn < ymax + 1)\n", "")], None, 0)
m12("and (xn < xmax + 1)", "and (xn <= xmax)", 0)


# ---- C27
mr("C12", SG, [('        ymin, ymax = 0, cparam.imy\n', '        ymin, ymax = 0, cparam.imx\n')], 1)
mr("C12", SG, [('    target_array = targ_rec(img, tpar, xmin, xmax, ymin, ymax, cparam, cam)', '    target_array = targ_rec(img, tpar, xmin, ymin, xmax, ymax, cparam, cam)')], 1)
mr("C12", SG, [('        xmin, xmax = 0, cparam.imx\n    else:\n        xmin, xmax = subrange_x\n', '        xmin = 0\n        xmax = cparam.imx\n    else:\n        xmin = subrange_x[0]\n        xmax = subrange_x[1]\n')])
mr("C12", SG, [('    if subrange_x is None:\n        xmin, xmax = 0, cparam.imx\n    else:\n        xmin, xmax = subrange_x\n', '    xmin, xmax = subrange_x if subrange_x is not None else (0, cparam.imx)\n')])
mr("C12", SG, [('    if subrange_x is None:\n        xmin, xmax = 0, cparam.imx\n    else:\n        xmin, xmax = subrange_x\n', '    if subrange_x is None:\n        subrange_x = (0, cparam.imx)\n    xmin, xmax = subrange_x\n')])
mr("C12", SG, [('    target_array = targ_rec(img, tpar, xmin, xmax, ymin, ymax, cparam, cam)', '    target_array = targ_rec(img, tpar, max(xmin, 0), min(xmax, img.shape[1]), ymin, ymax, cparam, cam)')])
mr("C12", SG, [('    if subrange_x is None:\n        xmin, xmax = 0, cparam.imx\n    else:\n        xmin, xmax = subrange_x\n', '    def _rng(r, n):\n        if r is None:\n            return 0, n\n        return r\n\n    xmin, xmax = _rng(subrange_x, cparam.imx)\n')])
def m27(fn, old, new, expect=1):
    CASES.append(("C27", fn, old, new, expect))


MM, RT, VU, OR, TF, FC, TK = "multimed.py", "ray_tracing.py", "vec_utils.py", "orientation.py", "trafo.py", "find_candidate.py", "track.py"
m27(VU, "@njit(float64[::1](float64[::1]), fastmath=True, cache=True, nogil=True)\ndef unit_vector", "def unit_vector")
m27(RT, "    glass_direction = unit_vector(glass_vector)\n", "    glass_direction = _unit(glass_vector)\n")
CASES[-1] = ("C27", RT, [("    glass_direction = unit_vector(glass_vector)\n", "    glass_direction = _unit(glass_vector)\n"), ("@njit\ndef fast_ray", "def _unit(v):\n    return v / np.linalg.norm(v)\n\n\n@njit\ndef fast_ray")], "", 1)
CASES.append(("C27", RT, [("    glass_direction = unit_vector(glass_vector)\n", "    glass_direction = _unit(glass_vector)\n"), ("@njit\ndef fast_ray", "@njit\ndef _unit(v):\n    return v / np.linalg.norm(v)\n\n\n@njit\ndef fast_ray")], "", 0))
m27(MM, "    r = np.linalg.norm(np.array([X - x0, Y - y0]))\n", "    r = np.linalg.norm([X - x0, Y - y0])\n")
m27(MM, "    r = np.linalg.norm(np.array([X - x0, Y - y0]))\n", "    r = np.hypot(X - x0, Y - y0)\n", 0)
m27(MM, "    r = np.linalg.norm(np.array([X - x0, Y - y0]))\n", "    r = np.einsum('i,i', pos, pos)\n")
m27(MM, "    zout = Z + np.sum(d[1:nlay])\n", "    zout = Z + sum(d[i] for i in range(1, nlay))\n")
m27(MM, "    zout = Z + np.sum(d[1:nlay])\n", "    zout = Z\n    for i in range(1, nlay):\n        zout += d[i]\n", 0)
m27(MM, "    out = np.zeros(3, dtype=np.float64)\n", "    out = np.zeros(3, dtype=int)\n")
m27(MM, "    out = np.zeros(3, dtype=np.float64)\n", "    out = np.zeros(3)\n", 0)
m27(OR, "    return float(scale), res\n", "    return scale.item(), res\n", 0)
m27(OR, "    scale = np.linalg.norm(on1 - on2)\n", "    scale = vec_norm([on1[0] - on2[0], on1[1] - on2[1], on1[2] - on2[2]])\n")
CASES[-1] = ("C27", OR, [("    scale = np.linalg.norm(on1 - on2)\n", "    scale = vec_norm([on1[0] - on2[0], on1[1] - on2[1], on1[2] - on2[2]])\n"), ("from numba import njit\n", "from numba import njit\nfrom .vec_utils import vec_norm\n")], "", 1)
m27(FC, "    return min(a, b) / max(a, b)", "    return np.clip(a / b, 0.0, b / a)", 0)
m27(FC, "    if a == 0 and b == 0:\n        return 0\n    return min(a, b)", "    if a == 0 and b == 0:\n        return None\n    return min(a, b)")
m27(TK, "    float64[:](float64[:], float64[:]),\n    cache=True,\n    fastmath=True,\n    nogil=True,\n    parallel=True,\n)\ndef search", "    float64[:](float64[:]),\n    cache=True,\n    fastmath=True,\n    nogil=True,\n    parallel=True,\n)\ndef search")
m27(TK, "        angle = 200\n", "        angle = 'back'\n")
m27(TF, "    if x == 0 and y == 0:\n        return 0, 0\n\n    r = np.sqrt", "    if x == 0 and y == 0:\n        return np.zeros(2)\n\n    r = np.sqrt")
m27(TF, "    if x == 0 and y == 0:\n        return 0, 0\n\n    r = np.sqrt", "    if x == 0 and y == 0:\n        return 0.0, 0.0\n\n    r = np.sqrt", 0)
m27(TF, "    if x == 0 and y == 0:\n        return 0, 0\n\n    r = np.sqrt", "    try:\n        q = 1 / (x + y)\n    except ZeroDivisionError:\n        return 0, 0\n\n    r = np.sqrt")
m27(SG, "                        pix.append([x, y, CORRES_NONE, n_targets, numpix, nx, ny, sumg])", "                        pix.append(Target(x=x, y=y, pnr=n_targets, n=numpix, nx=nx, ny=ny, sumg=sumg))")
m27(SG, "    img0 = img.copy()  # copy", "    img0 = np.array(img, copy=True)  # copy")
m27(SG, "    img0 = img.copy()  # copy", "    img0 = np.copy(img)  # copy", 0)
m27(SG, "    waitlist = [[0] * 2 for _ in range(MAX_TARGETS)]\n", "    waitlist = np.zeros((MAX_TARGETS, 2), dtype=np.int64)\n", 0)
m27(SG, "                        for n in range(4):\n                            xn = x4[n]", "                        for n, _ in enumerate(x4):\n                            xn = x4[n]", 0)
m27("calibration.py", "    co = np.cos(omega)\n", "    co = _cos(omega)\n")
CASES[-1] = ("C27", "calibration.py", [("    co = np.cos(omega)\n", "    co = _cos(omega)\n"), ("@njit\ndef rot", "def _cos(a):\n    return np.cos(a)\n\n\n@njit\ndef rot")], "", 1)
m27(OR, "            direct2 = ", "            direct2 = ", 0) if False else None
m27(TF, "@njit\ndef fast_pixel_to_metric(\n    x_pixel, y_pixel, imx, imy, pix_x, pix_y\n)", "@njit\ndef fast_pixel_to_metric(\n    x_pixel, y_pixel, cpar, pix_x, pix_y\n)")
CASES[-1] = ("C27", TF, [("@njit\ndef fast_pixel_to_metric(\n    x_pixel, y_pixel, imx, imy, pix_x, pix_y\n)", "@njit\ndef fast_pixel_to_metric(\n    x_pixel, y_pixel, imx, imy, pix_x\n)")], "", 1)


# ---- C29
def m29(fn, old, new, expect=1):
    CASES.append(("C29", fn, old, new, expect))


m29(RT, "    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1", "    p = np.sqrt(1 - n**2) * refractive_index_medium1")
m29(RT, "    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium2", "    p = np.sqrt(1 - n * n) * refractive_index_medium2")
m29(RT, "    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1", "    s2 = 1 - n**2\n    if s2 < 0:\n        s2 = 0.0\n    p = np.sqrt(s2) * refractive_index_medium1", 0)
m29(RT, "    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1", "    n = min(1.0, max(-1.0, n))\n    p = np.sqrt(1 - n**2) * refractive_index_medium1", 0)
m29(RT, "    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1", "    p = np.linalg.norm(transformed_direction_perpendicular) * refractive_index_medium1", 0)
m29(RT, "    if dot_product_start_dir == 0.0:\n        dot_product_start_dir = 1e-6  # Avoid division by zero with a small number\n", "")
m29(RT, "    if abs_dot_product == 0:\n        abs_dot_product = 1e-6  # Avoid division by zero with a small number\n", "")
m29(RT, "    d1 = -dist_cam_glass / dot_product_start_dir\n", "    d1 = dist_cam_glass / -dot_product_start_dir\n", 0)
m29(VU, "    return vec / magnitude", "    return vec * (1.0 / magnitude)", 0)
m29(TK, "min(1.0, max(-1.0, cosine))", "cosine")
m29(TK, "min(1.0, max(-1.0, cosine))", "min(1.0, cosine)")
m29(TK, "min(1.0, max(-1.0, cosine))", "max(-1.0, min(cosine, 1.0))", 0)
m29(MM, "    if dz == 0:\n        dz = 1.0  # avoid division by zero\n", "")
m29(MM, "    if zdiff == 0:\n        zdiff = 1.0\n", "")
m29(MM, "    return 1.0 if r == 0 else float(rq / r)", "    return float(rq / r)")
m29(MM, "    return 1.0 if r == 0 else float(rq / r)", "    if r > 0:\n        return float(rq / r)\n    return 1.0", 0)
m29(MM, "    if norm_temp > 0.0:  # type: ignore\n", "    if norm_temp >= 0.0:  # type: ignore\n")
m29(FC, "    if a == 0 and b == 0:\n        return 0\n    return min(a, b)", "    return min(a, b)")
m29(FC, "    if a == 0 and b == 0:\n        return 0\n    return min(a, b)", "    if a == 0:\n        return 0\n    return min(a, b)", 0)
m29(FC, "    if a == 0 and b == 0:\n        return 0\n    return min(a, b) / max(a, b)", "    if a == 0:\n        return 0\n    return a / b if a < b else b / a", 0)
m29(TF, "    if x == 0 and y == 0:\n        return 0, 0\n\n    r = np.sqrt(x**2 + y**2)\n", "    r = np.sqrt(x**2 + y**2)\n", 0)
m29(TF, "    r = np.sqrt(x**2 + y**2)\n\n    dx", "    r = np.hypot(x, y)\n\n    dx", 0)
m29(FC, "    if a == 0 and b == 0:\n        return 0\n    return min(a, b) / max(a, b)", "    if a == 0 and b == 0:\n        return 0\n    return a / b if a / b < 1 else b / a")
m29(OR, "    if num_used_pairs == 0:\n        # fewer than two rays: the position is undefined\n        return float(\"nan\"), np.full(3, np.nan)\n", "")
m29(OR, "    if num_used_pairs == 0:\n        # fewer than two rays: the position is undefined\n        return float(\"nan\"), np.full(3, np.nan)\n\n    res = point_tot / num_used_pairs\n    dtot /= num_used_pairs\n", "    pairs = max(num_used_pairs, 1)\n    res = point_tot / pairs\n    dtot /= pairs\n", 0)
m29(FC, "    if xa == xb:  # the line is a point or a vertical line in this camera\n        xb += 1e-10\n", "")
m29(FC, "    if xa == xb:  # the line is a point or a vertical line in this camera\n        xb += 1e-10\n", "    if xa == xb and ya == yb:  # the line is a point\n        xb += 1e-10\n")
m29("imgcoord.py", "    if deno == 0:\n        deno = 1\n", "")
m29("imgcoord.py", "    if deno == 0:\n        deno = 1\n", "    deno = deno if deno != 0 else 1\n", 0)
m29(TK, "        if norm_product == 0:  # no direction for a particle at rest\n            angle = 200\n        else:\n            cosine = dot_product / norm_product\n            angle = (200.0 / np.pi) * np.arccos(min(1.0, max(-1.0, cosine)))\n", "        cosine = dot_product / norm_product\n        angle = (200.0 / np.pi) * np.arccos(min(1.0, max(-1.0, cosine)))\n")
m29(TK, "        if norm_product == 0:  # no direction for a particle at rest\n", "        if norm_start_cand == 0:  # no direction for a particle at rest\n")
m29(TK, "        if norm_product == 0:  # no direction for a particle at rest\n", "        if norm_start_cand == 0 or norm_start_pred == 0:  # no direction for a particle at rest\n", 0)
m29(VU, "    if magnitude == 0:\n", "    if magnitude < 0:\n")

# ---- C13
def m13(fn, old, new, expect=1):
    CASES.append(("C13", fn, old, new, expect))


CO = "correspondences.py"
m13(FC, "        if d >= vpar.eps0:\n            continue\n", "")
m13(FC, "        if d >= vpar.eps0:\n", "        if d > 2 * vpar.eps0:\n")
m13(FC, "        if d >= vpar.eps0:\n            continue\n", "        if d >= vpar.eps0 or d < 0.25 * vpar.eps0:\n            continue\n")
m13(FC, "math.sqrt(m * m + 1))", "math.sqrt(m * m + b))")
m13(FC, "math.sqrt(m * m + 1))", "math.hypot(m, 1.0))", 0)
m13(FC, "crd[j].y <= ya - vpar.eps0 or crd[j].y >= yb + vpar.eps0", "crd[j].y <= ya - vpar.eps0 or crd[j].y >= xb + vpar.eps0")
m13(FC, "crd[j].y <= ya - vpar.eps0 or crd[j].y >= yb + vpar.eps0", "crd[j].y <= ya or crd[j].y >= yb")
m13(FC, "crd[j].x <= xa - vpar.eps0 or crd[j].x >= xb + vpar.eps0", "crd[j].x <= xa - vpar.eps0", 0)
m13(FC, "crd[j].x <= xa - vpar.eps0 or crd[j].x >= xb + vpar.eps0", "crd[j].x >= xb + vpar.eps0")
m13(FC, "qn < vpar.cn or qnx < vpar.cnx or qny < vpar.cny", "qn < vpar.cn or qnx < vpar.cny or qny < vpar.cnx")
m13(FC, "qn < vpar.cn or qnx < vpar.cnx or qny < vpar.cny", "qn < vpar.cn or qnx < vpar.cnx")
m13(FC, "qn < vpar.cn or qnx < vpar.cnx or qny < vpar.cny or qsumg <= vpar.csumg", "(qn < vpar.cn and qnx < vpar.cnx) or qny < vpar.cny or qsumg <= vpar.csumg")
m13(FC, "        if qn < vpar.cn or qnx < vpar.cnx or qny < vpar.cny or qsumg <= vpar.csumg:\n            continue\n", "        if not (qn >= vpar.cn and qnx >= vpar.cnx and qny >= vpar.cny and vpar.csumg < qsumg):\n            continue\n", 0)
m13(FC, "quality_ratio(nx, pix[p2].nx)", "quality_ratio(nx, pix[p2].ny)")
m13(FC, "quality_ratio(n, pix[p2].n)", "quality_ratio(n, pix[j].n)")
m13(FC, "        p2 = crd[j].pnr\n", "        p2 = int(crd.pnr[j])\n", 0)
m13(FC, "corr = 4 * qsumg + 2 * qn + qnx + qny", "corr = 4 * qsumg + 2 * qn + qnx + qnx")
m13(FC, "corr *= sumg + pix[p2].sumg", "corr *= sumg")
m13(FC, "(j, d, corr)], dtype", "(p2, d, corr)], dtype")
m13(FC, "(j, d, corr)], dtype", "(j, corr, d)], dtype")
m13(FC, "        if len(cand) >= MAXCAND:\n            print(f\"Increase maximum number of candidates {len(cand)}\\n\")\n            out = np.array(cand).view(np.recarray).flatten()\n            return out  # type: ignore\n", "")
m13(FC, "        if crd[j].x > xb + vpar.eps0:\n", "        if crd[j].x > xb:\n")
m13(FC, "        if crd[j].x > xb + vpar.eps0:\n", "        if crd[j].y > yb + vpar.eps0:\n")
m13(FC, "        if crd[j].x > xb + vpar.eps0:\n            out = np.array(cand).view(np.recarray).flatten()\n            return out  # type: ignore\n", "        if crd[j].x > xb + vpar.eps0:\n            break\n", 0)
m13(FC, "    if xa > xb:\n        xa, xb = xb, xa\n", "")
m13(FC, "    if ya > yb:\n        ya, yb = yb, ya\n", "    ya, yb = min(ya, yb), max(ya, yb)\n", 0)
m13(FC, "    b = ya - m * xa\n\n    if xa > xb:\n        xa, xb = xb, xa\n", "    if xa > xb:\n        xa, xb = xb, xa\n\n    b = ya - m * xa\n")
m13(FC, "xb <= xmin or xa >= xmax or yb <= ymin or ya >= ymax", "xb <= xmin or xa >= xmax or yb <= ymin or yb >= ymax")
m13(FC, "xb <= xmin or xa >= xmax or yb <= ymin or ya >= ymax", "xa <= xmin or xb >= xmax or yb <= ymin or ya >= ymax")
m13(FC, "        if x[j0] < (xa - eps0):\n            j0 += dj\n        else:\n            j0 -= dj\n", "        if x[j0] < (xa + eps0):\n            j0 += dj\n        else:\n            j0 -= dj\n")
m13(FC, "        if x[j0] < (xa - eps0):\n            j0 += dj\n        else:\n            j0 -= dj\n", "        if x[j0] > (xa - eps0):\n            j0 += dj\n        else:\n            j0 -= dj\n")
m13(FC, "        if x[j0] < (xa - eps0):\n            j0 += dj\n        else:\n            j0 -= dj\n", "        if (xa - eps0) <= x[j0]:\n            j0 = j0 - dj\n        else:\n            j0 = j0 + dj\n", 0)
m13(FC, "j0 - 12", "j0 - 2")
m13(FC, "find_start_point(crd, num, xa, vpar)", "find_start_point(crd, num, xb, vpar)")
m13(CO, "                    frm.targets[i1][pt1].nx,", "                    frm.targets[i1][i].nx,")
m13(CO, "                    frm.targets[i1][pt1].nx,", "                    frm.targets[i2][pt1].nx,")
m13(CO, "                    xa12,\n                    ya12,\n                    xb12,\n                    yb12,", "                    xa12,\n                    xb12,\n                    ya12,\n                    yb12,")
m13(CO, "                    frm.num_targets[i2],\n", "                    frm.num_targets[i1],\n")
m13(CO, "count = min(len(cand), MAXCAND)", "count = len(cand)", 0)
m13(CO, "dist[j] = cand[j].tol", "dist[j] = cand[j].corr")
m13(CO, "corr_lists[i1][i2][i].corr[j] = cand[j].corr", "corr_lists[i1][i2][i].corr[j] = cand[0].corr")
m13(CO, "corr_lists[i1][i2][i].p1 = i\n", "corr_lists[i1][i2][i].p1 = corrected[i1][i].pnr\n")
m13(CO, "                for j in range(count):\n                    corr_lists[i1][i2][i].p2[j]", "                row = corr_lists[i1][i2][i]\n                for j in range(count):\n                    row.p2[j]", 0)

# ---- C14
def m14(old, new, expect=1):
    CASES.append(("C14", CO, old, new, expect))


m14("                                if p4 != p42:\n                                    continue\n", "")
m14("                        if p3 != p31:\n                            continue\n", "")
m14("                            if p4 != p41:\n                                continue\n", "")
m14("for o in range(corr_list[2][3][p3].n):\n                                p42 = corr_list[2][3][p3].p2[o]", "for o in range(corr_list[2][3][p2].n):\n                                p42 = corr_list[2][3][p2].p2[o]")
m14("                    for m in range(corr_list[1][2][p2].n):\n                        p31 = corr_list[1][2][p2].p2[m]", "                    for m in range(corr_list[1][2][i].n):\n                        p31 = corr_list[1][2][i].p2[m]")
m14("                                if corr <= accept_corr:", "                                if corr < accept_corr:", 0)
m14("                                if corr <= accept_corr:\n                                    continue\n", "")
m14("                                    + corr_list[1][3][p2].corr[n]\n", "                                    + corr_list[1][3][p2].corr[m]\n")
m14("                                    + corr_list[2][3][p3].dist[o]\n", "")
m14("scratch[matched].p[1] = p2\n                                scratch[matched].p[2] = p3", "scratch[matched].p[1] = p3\n                                scratch[matched].p[2] = p2")
m14("                            if indices.size == 0:\n                                continue\n", "                            if indices.size == 0:\n                                indices = np.zeros(1, dtype=np.int64)\n")
m14("                                + corr_list[i2][i3][p2].corr[m]\n", "                                + corr_list[i2][i3][p2].corr[k]\n")
m14("corr_list[i2][i3][p2].p2[: corr_list[i2][i3][p2].n]", "corr_list[i2][i3][i].p2[: corr_list[i2][i3][i].n]")
m14("                            p[i1], p[i2], p[i3] = p1, p2, p3\n", "                            p[i1], p[i2], p[i3] = p1, p3, p2\n")
m14("p = np.full(TR_MAX_CAMS, -2)", "p = np.full(TR_MAX_CAMS, 0)")
m14("p = np.full(TR_MAX_CAMS, -2)", "p = np.full(TR_MAX_CAMS, -1)", 0)
m14("                                + corr_list[i2][i3][p2].dist[m]\n", "                                + corr_list[i2][i3][p2].dist[j]\n")
m14("                if corr_list[i1][i2][i].n != 1:\n                    continue\n", "                if corr_list[i1][i2][i].n == 0:\n                    continue\n", 0)
m14("                for n in range(num_cams):\n                    scratch[matched].p[n] = -2\n", "")
m14("                corr = corr_list[i1][i2][i].corr[0] / corr_list[i1][i2][i].dist[0]\n                if corr <= accept_corr:\n                    continue\n", "                corr = corr_list[i1][i2][i].corr[0] / corr_list[i1][i2][i].dist[0]\n")
m14("                scratch[matched].p[i1] = p1\n                scratch[matched].p[i2] = p2\n                scratch[matched].corr", "                scratch[matched].p[i1] = p2\n                scratch[matched].p[i2] = p1\n                scratch[matched].corr")
m14("corr = corr_list[i1][i2][i].corr[0] / corr_list[i1][i2][i].dist[0]", "corr = corr_list[i1][i2][i].corr[0]")
m14("    src[:] = np.flip(\n        src, axis=0\n    )  # reverse order in-place while preserving recarray type\n", "")
m14("    src.sort(order=\"corr\")  # by corr\n", "")
m14("    src.sort(order=\"corr\")  # by corr\n", "    src.sort()\n")
m14("    for cand in src:\n", "    for q in range(len(src)):\n        cand = src[q]\n", 0)
m14("    src.sort(order=\"corr\")  # by corr\n    src[:] = np.flip(\n        src, axis=0\n    )  # reverse order in-place while preserving recarray type\n", "    src[:] = src[np.argsort(-src.corr)]\n", 0)
m14("    src.sort(order=\"corr\")  # by corr\n    src[:] = np.flip(\n        src, axis=0\n    )  # reverse order in-place while preserving recarray type\n", "    src[:] = src[np.argsort(src.corr)]\n", 1)
m14("        if has_used_target:\n            continue\n", "")
m14("if tnum > -1 and tusage[cam][tnum] > 0:", "if tnum > -1 and tusage[0][tnum] > 0:")
m14("if tnum > -1 and tusage[cam][tnum] > 0:", "if tnum > -1 and tusage[cam][tnum] > 1:")
m14("if tnum > -1 and tusage[cam][tnum] > 0:", "if tnum > -1 and tusage[cam][tnum] != 0:", 0)
m14("if tnum > -1 and tusage[cam][tnum] > 0:", "if tnum > 0 and tusage[cam][tnum] > 0:")
m14("        for cam in range(num_cams):\n            tnum = cand.p[cam]\n\n            # If any", "        for cam in range(num_cams - 1):\n            tnum = cand.p[cam]\n\n            # If any")
m14("            if tnum > -1:\n                tusage[cam][tnum] += 1\n", "            if tnum > 0:\n                tusage[cam][tnum] += 1\n")
m14("            if tnum > -1:\n                tusage[cam][tnum] += 1\n", "            if tnum >= 0:\n                tusage[cam][tnum] = 1\n", 0)
m14("                tusage[cam][tnum] += 1\n", "                tusage[cam][taken] += 1\n")
m14("        # Mark the targets as used\n        for cam in range(num_cams):", "        # Mark the targets as used\n        for cam in range(1, num_cams):")
m14("        has_used_target = False\n        for cam in range(num_cams):\n            tnum = cand.p[cam]\n\n            # If any correspondence in this camera, check if the target is free\n            if tnum > -1 and tusage[cam][tnum] > 0:\n                has_used_target = True\n                break\n\n        if has_used_target:\n            continue\n",
    "        if any(cand.p[cam] > -1 and tusage[cam][cand.p[cam]] > 0 for cam in range(num_cams)):\n            continue\n", 0)
m14("    return taken\n\n\ndef py_corr", "    return len(src)\n\n\ndef py_corr")
m14("        dst[taken] = cand\n        taken += 1\n", "        taken += 1\n        dst[taken] = cand\n")
m14("match_counts[1] = take_best_candidates(\n            con0[:matched], con[match_counts[3] :].view", "match_counts[1] = take_best_candidates(\n            con0[:matched], con[match_counts[0] :].view", 0)
m14("match_counts[2] = take_best_candidates(\n            con0[:matched], con[match_counts[3] :].view", "match_counts[2] = take_best_candidates(\n            con0[:matched], con[match_counts[1] :].view")
m14("            con0[:matched], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim\n        )\n        match_counts[3] += match_counts[2]", "            con0[:matched], con, cpar.num_cams, tim\n        )\n        match_counts[3] += match_counts[2]")
m14("        match_counts[3] += match_counts[2]\n", "")
m14("        match_counts[3] += match_counts[2]\n", "        match_counts[3] += match_counts[1]\n")
m14("            con0[:matched], con, cpar.num_cams, tim\n", "            con0, con, cpar.num_cams, tim\n")
m14("corr_list, frm.num_targets[0], vpar.corrmin, con0", "corr_list, frm.num_targets[1], vpar.corrmin, con0")
m14("corr_list, frm.num_targets[0], vpar.corrmin, con0", "corr_list, frm.num_targets[0], vpar.cn, con0")
m14("    if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:", "    if cpar.num_cams == 4 and cpar.all_cam_flag == 0:")
m14("    if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:", "    if cpar.num_cams >= 3:")
m14("    if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:", "    three = cpar.num_cams == 3\n    if three or (cpar.num_cams == 4 and not cpar.all_cam_flag):", 0)
m14("    if cpar.num_cams > 1 and cpar.all_cam_flag == 0:", "    if cpar.num_cams > 2 and cpar.all_cam_flag == 0:")
m14("            p1 = corrected[j][con[i].p[j]].pnr\n", "            p1 = con[i].p[j]\n")
m14("            p1 = corrected[j][con[i].p[j]].pnr\n", "            p1 = corrected[0][con[i].p[j]].pnr\n")
m14("                frm.targets[j][p1].tnr = i", "                frm.targets[j][p1].tnr = p1")
m14("                frm.targets[j][p1].tnr = i", "                target = frm.targets[j][p1]\n                target.tnr = i", 0)
m14("    for i in range(match_counts[3]):\n", "    for i in range(match_counts[0]):\n")
m14("            if p1 > -1 and p1 < 1202590843:\n", "            if p1 > 0 and p1 < 1202590843:\n")
m14("        last_count += num_points\n", "        last_count = num_points\n")
m14("        last_count += num_points\n", "        last_count = last_count + num_points\n", 0)
m14("num_points = match_counts[4 - num_cams + clique_type]", "num_points = match_counts[clique_type]")
m14("geo_id = corresp_buf[pt + last_count].p[cam]", "geo_id = corresp_buf[pt].p[cam]")
m14("                p1 = flat_coords[cam][geo_id].pnr\n                clique_ids", "                p1 = geo_id\n                clique_ids")
m14("clique_targs[cam, pt, 1] = targ.y", "clique_targs[cam, pt, 1] = targ.x")
m14("targ = img_pts[cam][p1]", "targ = img_pts[0][p1]")
m14("num_targs = match_counts[TR_MAX_CAMS - 1]", "num_targs = match_counts[0]")
m14("num_targs = match_counts[TR_MAX_CAMS - 1]", "num_targs = sum(match_counts[:3])", 0)


def m17(old, new, expect=1, nth=1):
    CASES.append(("C17", "track.py", [(old, new, nth)], "", expect))


m17("bounds.dvxmin < pos[0] < bounds.dvxmax", "bounds.dvxmin < pos[0] < bounds.dvymax")
m17("bounds.dvymin < pos[1] < bounds.dvymax", "bounds.dvymin < pos[0] < bounds.dvymax")
m17("        and bounds.dvzmin < pos[2] < bounds.dvzmax\n", "")
m17("bounds.dvxmin < pos[0] < bounds.dvxmax", "pos[0] < bounds.dvxmax")
m17("bounds.dvxmin < pos[0] < bounds.dvxmax", "not (pos[0] <= bounds.dvxmin or pos[0] >= bounds.dvxmax)", 0)
m17("bounds.dvxmin < pos[0] < bounds.dvxmax", "abs(pos[0]) < bounds.dvxmax")
m17("diff_pos = vec_subt(X[4], X[3])", "diff_pos = vec_subt(X[3], X[4])")
m17("diff_pos = vec_subt(X[4], X[3])", "diff_pos = vec_subt(X[4], X[1])")
m17("diff_pos = vec_subt(X[4], X[3])", "diff_pos = vec_subt(X[4], X[5])")
m17("diff_pos = vec_subt(X[4], X[3])", "diff_pos = vec_subt(X[5], X[3])", 1, 2)
m17("diff_pos = vec_subt(X[4], X[3])", "diff_pos = X[4] - X[3]", 0, 2)
m17("diff_pos = vec_subt(X[3], X[1])", "diff_pos = vec_subt(X[2], X[1])")
m17("diff_pos = vec_subt(X[3], X[1])", "diff_pos = vec_subt(X[1], X[3])")
m17("diff_pos = vec_subt(X[3], X[1])", "diff_pos = vec_subt(X[2], X[1])", 1, 2)
m17("diff_pos = vec_subt(X[1], X[3])", "diff_pos = vec_subt(X[3], X[1])")
m17("diff_pos = vec_subt(X[1], X[3])", "diff_pos = vec_subt(X[1], X[2])", 1, 2)
m17("if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):", "if in_volume == 1:")
m17("if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):", "if in_volume == 1:", 1, 3)
m17("if pos3d_in_bounds(diff_pos, tpar):\n                    angle, acc", "if True:\n                    angle, acc")
m17("if pos3d_in_bounds(diff_pos, tpar):\n                        angle, acc", "if True:\n                        angle, acc")
m17("            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or acc < tpar.dacc / 10", "            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or acc < tpar.dacc")
m17("            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or acc < tpar.dacc / 10", "            acc < tpar.dacc\n                            or angle < tpar.dangle")
m17("            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or acc < tpar.dacc / 10", "            acc < tpar.dangle\n                            and angle < tpar.dacc\n                            or acc < tpar.dacc / 10")
m17("            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or acc < tpar.dacc / 10", "            10 * acc < tpar.dacc\n                            or tpar.dangle > angle and tpar.dacc > acc", 0)
m17("            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or acc < tpar.dacc / 10", "            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or angle < tpar.dacc / 10")
m17("if acc < tpar.dacc and angle < tpar.dangle or acc < tpar.dacc / 10:", "if angle < tpar.dacc and acc < tpar.dangle or acc < tpar.dacc / 10:")
m17("if acc < tpar.dacc and angle < tpar.dangle or acc < tpar.dacc / 10:", "if acc < tpar.dacc and (angle < tpar.dangle or acc < tpar.dacc / 10):", 0)
m17("if acc < tpar.dacc and angle < tpar.dangle or acc < tpar.dacc / 10:", "if acc < tpar.dacc / 10 or acc < tpar.dacc:")
m17("if acc < tpar.dacc and angle < tpar.dangle or acc < tpar.dacc / 10:", "if acc < tpar.dacc / 10 or angle < tpar.dangle:")
m17("angle, acc = angle_acc(X[3], X[4], X[5])", "acc, angle = angle_acc(X[3], X[4], X[5])")
m17("angle, acc = angle_acc(X[3], X[4], X[5])", "angle, acc = angle_acc(X[3], X[5], X[4])", 0)
m17("angle, acc = angle_acc(X[3], X[4], X[5])", "angle, acc = angle_acc(X[4], X[3], X[5])")
m17("angle, acc = angle_acc(X[3], X[4], X[5])", "res = angle_acc(X[3], X[4], X[5])\n                    angle = res[0]\n                    acc = res[1]", 0)
m17("angle1, acc1 = angle_acc(X[3], X[4], X[5])", "angle1, acc1 = angle_acc(X[3], X[4], X[2])")
m17("angle1, acc1 = angle_acc(X[3], X[4], X[5])", "angle1, acc1 = angle_acc(X[1], X[4], X[5])")
m17("angle0, acc0 = angle_acc(X[1], X[2], X[3])", "angle0, acc0 = angle_acc(X[1], X[2], X[4])")
m17("angle0, acc0 = angle_acc(X[1], X[2], X[3])", "acc0, angle0 = angle_acc(X[1], X[2], X[3])")
m17("angle, acc = angle_acc(X[1], X[2], X[3])", "angle, acc = angle_acc(X[1], X[5], X[3])")
m17("angle, acc = angle_acc(X[1], X[2], X[3])", "angle, acc = angle_acc(X[0], X[2], X[3])", 1, 2)
m17("angle, acc = angle_acc(X[1], X[2], X[3])", "angle, acc = angle_acc(X[1], X[0], X[3])", 1, 3)
m17("angle, acc = angle_acc(X[1], X[2], X[3])", "acc, angle = angle_acc(X[1], X[2], X[3])", 1, 4)
m17("acc = (acc0 + acc1) / 2", "acc = acc0 + acc1")
m17("acc = (acc0 + acc1) / 2", "acc = (acc0 + angle1) / 2")
m17("acc = (acc0 + acc1) / 2", "acc = 0.5 * (acc1 + acc0)", 0)
m17("angle = (angle0 + angle1) / 2", "angle = (angle0 + angle0) / 2")
m17("                            acc0 = acc1\n                            angle0 = angle1\n", "                            acc0 = angle1\n                            angle0 = acc1\n")
m17("X[5] = 0.5 * (5 * X[3] - 4 * X[1] + X[0])", "X[5] = 2.5 * X[3] - 2.0 * X[1] + X[0] / 2", 0)
m17("X[5] = 0.5 * (5 * X[3] - 4 * X[1] + X[0])", "X[5] = 0.5 * (5 * X[3] - 4 * X[0] + X[1])")
m17("X[5] = 0.5 * (5 * X[3] - 4 * X[1] + X[0])", "X[5] = 5 * X[3] - 4 * X[1] + X[0]")
m17("X[5] = search_volume_center_moving(X[1], X[3])", "X[5] = search_volume_center_moving(X[3], X[1])")
m17("dl / run_info.lmax\n                                + acc / tpar.dacc\n                                + angle / tpar.dangle", "dl / run_info.lmax\n                                + acc / tpar.dangle\n                                + angle / tpar.dacc")
m17("dl / run_info.lmax\n                                + acc / tpar.dacc\n                                + angle / tpar.dangle", "dl / run_info.lmax\n                                + acc / tpar.dacc\n")
m17("dl / run_info.lmax\n                                + acc / tpar.dacc\n                                + angle / tpar.dangle", "dl / run_info.lmax\n                                + acc1 / tpar.dacc\n                                + angle / tpar.dangle")
m17("dl / run_info.lmax\n                                + acc / tpar.dacc\n                                + angle / tpar.dangle", "angle / tpar.dangle + acc / tpar.dacc + dl / run_info.lmax", 0)
m17("dl / run_info.lmax + acc / tpar.dacc + angle / tpar.dangle", "dl / run_info.lmax + acc / tpar.dacc + angle")
m17("dl / run_info.lmax + acc / tpar.dacc + angle / tpar.dangle", "dl / run_info.lmax + angle / tpar.dacc + acc / tpar.dangle", 1, 2)
m17("dl / run_info.lmax + acc / tpar.dacc + angle / tpar.dangle", "dl * run_info.lmax + acc / tpar.dacc + angle / tpar.dangle", 1, 2)
m17("vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[4], X[3])\n                            ) / 2", "vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[4], X[1])\n                            ) / 2")
m17("vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[4], X[3])\n                            ) / 2", "vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[4], X[3])\n                            )")
m17("vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[4], X[3])\n                            ) / 2", "vec_diff_norm(X[3], X[4]) + vec_diff_norm(X[3], X[1])\n                            ) * 0.5", 0)
m17("dl = (vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[0], X[1])) / 2", "dl = (vec_diff_norm(X[2], X[3]) + vec_diff_norm(X[0], X[1])) / 2")
m17("register_link_candidate(rr, w[mm].ftnr)", "register_link_candidate(rr, wn[kk].ftnr)")
m17("register_link_candidate(rr, w[mm].ftnr)", "register_link_candidate(rr, mm)", 1, 2)
m17("register_link_candidate(rr, w[mm].ftnr)", "register_link_candidate(fitness=rr, cand=w[mm].ftnr)", 0, 2)
m17("                                rr, fb.buf[2].num_parts\n", "                                rr, fb.buf[1].num_parts\n")
m17("                                    rr, fb.buf[2].num_parts\n", "                                    rr, fb.buf[3].num_parts\n")
m17("                            curr_path_inf.register_link_candidate(\n                                rr, fb.buf[2].num_parts\n                            )\n                            add_particle(fb.buf[2], X[3], philf)\n", "                            add_particle(fb.buf[2], X[3], philf)\n                            curr_path_inf.register_link_candidate(\n                                rr, fb.buf[2].num_parts - 1\n                            )\n", 0)
m17("register_link_candidate(rr, w[i].ftnr)", "register_link_candidate(rr, i)")
m17("acc = np.linalg.norm(v0 - v1)", "acc = np.linalg.norm(v0) - np.linalg.norm(v1)")
m17("            ref_path_inf = fb.buf[2].path_info[w[mm].ftnr]\n            X[3] = vec_copy(ref_path_inf.x)", "            ref_path_inf = fb.buf[2].path_info[w[mm].ftnr]\n            X[3] = vec_copy(curr_path_inf.x)")
m17("            ref_path_inf = fb.buf[2].path_info[w[mm].ftnr]\n            X[3] = vec_copy(ref_path_inf.x)", "            X[3] = fb.buf[2].path_info[w[mm].ftnr].x.copy()", 0)
mr("C17", "track.py", [("                    diff_pos = vec_subt(X[4], X[3])\n                    # print(f\"inside kk loop {kk}\")\n                    # print(f\"diff_pos {diff_pos}\")\n\n                    if pos3d_in_bounds(diff_pos, tpar):", "                    if pos3d_in_bounds(X[4] - X[3], tpar):")])
mr("C17", "track.py", [("                        if (\n                            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or acc < tpar.dacc / 10\n                        ):", "                        if _ok(acc, angle, tpar):"), ("def track_forward_start(", "def _ok(a, b, t):\n    if a < t.dacc / 10:\n        return True\n    return a < t.dacc and b < t.dangle\n\n\ndef track_forward_start(")])
mr("C17", "track.py", [("                if pos3d_in_bounds(diff_pos, tpar):\n                    angle, acc", "                inside = pos3d_in_bounds(diff_pos, tpar)\n                if inside:\n                    angle, acc")])
mr("C17", "track.py", [("                    if (acc < tpar.dacc and angle < tpar.dangle) or (\n                        acc < tpar.dacc / 10\n                    ):\n                        quali = w[mm].freq", "                    small = acc < tpar.dacc / 10\n                    fine = acc < tpar.dacc and angle < tpar.dangle\n                    if small or fine:\n                        quali = w[mm].freq")])


def m18(old, new, expect=1, nth=1, fn="track.py"):
    CASES.append(("C18", fn, [(old, new, nth)], "", expect))


m18("                ref_path_inf.prev_frame = h\n", "                ref_path_inf.prev_frame = curr_path_inf.prev_frame\n")
m18("            if ref_path_inf.prev_frame == PREV_NONE:\n", "            if ref_path_inf.prev_frame <= PREV_NONE:\n", 0)
m18("            if ref_path_inf.prev_frame == PREV_NONE:\n", "            if ref_path_inf.next_frame == NEXT_NONE:\n")
m18("            if ref_path_inf.prev_frame == PREV_NONE:\n", "            if True:\n")
m18("                    > curr_path_inf.finaldecis\n", "                    < curr_path_inf.finaldecis\n")
m18("                    > curr_path_inf.finaldecis\n", "                    >= curr_path_inf.finaldecis\n")
m18("                    > curr_path_inf.finaldecis\n", "                    > ref_path_inf.finaldecis\n")
m18("                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n                    ref_path_inf.prev_frame = h\n", "                    ref_path_inf.prev_frame = h\n")
m18("                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n                    ref_path_inf.prev_frame = h\n", "                    ref_path_inf.prev_frame = h\n                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n")
m18("                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n                    ref_path_inf.prev_frame = h\n", "                    former = fb.buf[1].path_info[ref_path_inf.prev_frame]\n                    ref_path_inf.prev_frame = h\n                    former.next_frame = NEXT_NONE\n", 0)
m18("                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n", "                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = PREV_NONE\n")
m18("                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n", "                    fb.buf[2].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n")
m18("                else:\n                    curr_path_inf.next_frame = NEXT_NONE\n", "")
m18("                    curr_path_inf.next_frame = NEXT_NONE\n", "                    curr_path_inf.next_frame = PREV_NONE\n")
m18("                curr_path_inf.inlist, curr_path_inf.decis, curr_path_inf.linkdecis\n            )\n            curr_path_inf.finaldecis = curr_path_inf.decis[0]", "                curr_path_inf.inlist, curr_path_inf.linkdecis, curr_path_inf.decis\n            )\n            curr_path_inf.finaldecis = curr_path_inf.decis[0]")
m18("            curr_path_inf.finaldecis = curr_path_inf.decis[0]\n", "            curr_path_inf.finaldecis = curr_path_inf.decis[curr_path_inf.inlist - 1]\n")
m18("            curr_path_inf.finaldecis = curr_path_inf.decis[0]\n", "            curr_path_inf.finaldecis = curr_path_inf.linkdecis[0]\n")
m18("            curr_path_inf.next_frame = curr_path_inf.linkdecis[0]\n", "            curr_path_inf.next_frame = curr_path_inf.linkdecis[1]\n")
m18("            curr_path_inf.next_frame = curr_path_inf.linkdecis[0]\n", "            curr_path_inf.next_frame = curr_path_inf.linkdecis[curr_path_inf.inlist - 1]\n")
m18("    sorted_pairs = sorted(zip(a[:n], b[:n]))", "    sorted_pairs = sorted(zip(a[:n], b[:n]), reverse=True)")
m18("    sorted_pairs = sorted(zip(a[:n], b[:n]))\n    a[:n], b[:n] = zip(*sorted_pairs)", "    sorted_pairs = sorted(zip(b[:n], a[:n]))\n    b[:n], a[:n] = zip(*sorted_pairs)")
m18("    sorted_pairs = sorted(zip(a[:n], b[:n]))", "    sorted_pairs = sorted(zip(a[:n-1], b[:n-1]))")
m18("    a[:n], b[:n] = zip(*sorted_pairs)", "    b[:n], a[:n] = zip(*sorted_pairs)")
m18("    sorted_pairs = sorted(zip(a[:n], b[:n]))", "    pairs = list(zip(a[:n], b[:n]))\n    sorted_pairs = sorted(pairs)", 0)
m18("    sorted_pairs = sorted(zip(a[:n], b[:n]))", "    sorted_pairs = sorted(zip(a[:n], b[:n]), key=lambda t: t[0])", 0)
m18("                    and ref_path_inf.next_frame == NEXT_NONE\n", "")
m18("                    and ref_path_inf.next_frame == NEXT_NONE\n", "", 1, 2)
m18("                    fb.buf[2].path_info[curr_path_inf.prev_frame].next_frame = h\n", "")
m18("                        fb.buf[2].path_info[curr_path_inf.prev_frame].next_frame = h\n", "                        fb.buf[2].path_info[curr_path_inf.prev_frame].next_frame = curr_path_inf.next_frame\n")
m18("                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n                    fb.buf[2].path_info[curr_path_inf.prev_frame].next_frame = h\n", "                    ref_path_inf.next_frame = h\n                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n", 0)
m18("                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n                    fb.buf[2].path_info[curr_path_inf.prev_frame].next_frame = h\n", "                    fb.buf[2].path_info[curr_path_inf.prev_frame].next_frame = h\n                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n")
m18("                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n", "                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[1]\n")
m18("        self.linkdecis[self.inlist] = cand\n        self.inlist += 1", "        self.inlist += 1\n        self.linkdecis[self.inlist] = cand", 1, 1, "tracking_frame_buf.py")
m18("        self.decis[self.inlist] = fitness\n        self.linkdecis[self.inlist] = cand\n", "        n = self.inlist\n        self.linkdecis[n] = cand\n        self.decis[n] = fitness\n", 0, 1, "tracking_frame_buf.py")
m18("        self.inlist += 1\n", "", 1, 1, "tracking_frame_buf.py")
m18("        self.decis[self.inlist] = fitness\n", "        self.decis[self.inlist] = cand\n", 1, 1, "tracking_frame_buf.py")
mr("C18", "track.py", [("                # best choice wasn't used yet, so link is created\n", "                # unused\n                pass\n")])
mr("C18", "track.py", [("    for h in range(fb.buf[1].num_parts):\n        curr_path_inf = fb.buf[1].path_info[h]\n\n        if curr_path_inf.inlist > 0:\n            ref_path_inf = fb.buf[2].path_info[curr_path_inf.next_frame]\n", "    for h in range(fb.buf[1].num_parts):\n        curr_path_inf = fb.buf[1].path_info[h]\n        nxt = fb.buf[2].path_info\n        if curr_path_inf.inlist:\n            ref_path_inf = nxt[curr_path_inf.next_frame]\n")])
mr("C18", "track.py", [("                if (\n                    fb.buf[1].path_info[ref_path_inf.prev_frame].finaldecis\n                    > curr_path_inf.finaldecis\n                ):\n                    # remove link with prev\n                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n                    ref_path_inf.prev_frame = h\n                else:\n                    curr_path_inf.next_frame = NEXT_NONE\n",
"                rival = fb.buf[1].path_info[ref_path_inf.prev_frame]\n                if rival.finaldecis <= curr_path_inf.finaldecis:\n                    curr_path_inf.next_frame = NEXT_NONE\n                else:\n                    rival.next_frame = NEXT_NONE\n                    ref_path_inf.prev_frame = h\n")])
mr("C18", "track.py", [("            if ref_path_inf.prev_frame == PREV_NONE:\n                # best choice wasn't used yet, so link is created\n                ref_path_inf.prev_frame = h\n", "            if ref_path_inf.prev_frame == PREV_NONE:\n                _claim(ref_path_inf, h)\n"), ("def track_forward_start(", "def _claim(p, h):\n    p.prev_frame = h\n\n\ndef track_forward_start(")])
mr("C18", "track.py", [("            curr_path_inf.decis, curr_path_inf.linkdecis = sort(\n                curr_path_inf.inlist, curr_path_inf.decis, curr_path_inf.linkdecis\n            )\n            curr_path_inf.finaldecis = curr_path_inf.decis[0]\n            curr_path_inf.next_frame = curr_path_inf.linkdecis[0]\n", "            d, l = sort(curr_path_inf.inlist, curr_path_inf.decis, curr_path_inf.linkdecis)\n            curr_path_inf.decis = d\n            curr_path_inf.linkdecis = l\n            curr_path_inf.next_frame = l[0]\n            curr_path_inf.finaldecis = d[0]\n")])


def m20(old, new, expect=1, nth=1):
    CASES.append(("C20", "track.py", [(old, new, nth)], "", expect))


m20("if quali >= 2:", "if quali >= 1:")
m20("if quali >= 2:", "if quali > 1:", 0)
m20("if quali >= 2:", "if quali > 0:", 1, 2)
m20("if quali >= 2:", "if not quali < 2:", 0, 2)
m20("if quali >= 2:", "if quali != 1:", 1, 2)
m20("if quali >= 2:", "if quali >= 3:", 0, 3)
m20("                    and X[4][1] < run_info.ymax\n", "")
m20("                    and X[4][1] < run_info.ymax\n", "                    and X[4][1] <= run_info.ymax\n", 0)
m20("                    and X[4][1] < run_info.ymax\n", "                    and X[4][0] < run_info.ymax\n")
m20("                    and vpar.z_min_lay[0] < X[4][2]\n", "                    and vpar.z_min_lay[1] < X[4][2]\n")
m20("                    and vpar.z_min_lay[0] < X[4][2]\n", "                    or vpar.z_min_lay[0] < X[4][2]\n")
m20("vpar.x_lay[0] < X[4][0]", "vpar.x_lay[0] < X[3][0]")
m20("                        and vpar.z_min_lay[0] < X[3][2] < vpar.z_max_lay[1]\n", "                        and vpar.z_max_lay[0] < X[3][2] < vpar.z_max_lay[1]\n")
m20("                        and vpar.z_min_lay[0] < X[3][2] < vpar.z_max_lay[1]\n", "                        and vpar.z_min_lay[0] < X[3][2] < vpar.z_max_lay[0]\n")
m20("                        vpar.x_lay[0] < X[3][0] < vpar.x_lay[1]\n", "                        vpar.x_lay[0] < X[3][0] and X[3][0] < vpar.x_lay[1]\n", 0)
m20("                            vpar.x_lay[0] < X[3][0] < vpar.x_lay[1]\n", "                            vpar.x_lay[0] < X[3][0]\n")
m20("                            and run_info.ymin < X[3][1] < run_info.ymax\n", "                            and run_info.ymin < X[3][1] < vpar.x_lay[1]\n")
m20("                    if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):", "                    if pos3d_in_bounds(diff_pos, tpar):")
m20("                        if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):", "                        if in_volume and pos3d_in_bounds(diff_pos, tpar):", 0)
m20("add_particle(fb.buf[3], X[4], philf)", "add_particle(fb.buf[3], X[5], philf)")
m20("add_particle(fb.buf[3], X[4], philf)", "add_particle(fb.buf[2], X[4], philf)")
m20("add_particle(fb.buf[2], X[3], philf)", "add_particle(fb.buf[2], X[2], philf)")
m20("add_particle(fb.buf[2], X[3], philf)", "add_particle(fb.buf[2], X[3], v2)")
m20("quali, v2, philf = assess_new_position(X[2], fb.buf[2], run_info)", "quali, v2, philf = assess_new_position(X[2], fb.buf[3], run_info)")
m20("quali, v2, philf = assess_new_position(X[2], fb.buf[2], run_info)", "quali, v2, philf = assess_new_position(X[2], fb.buf[1], run_info)", 1, 2)
m20("            if quali >= 2:\n                in_volume = 0  # inside volume\n", "            if quali < 2:\n                pass\n            else:\n                in_volume = 0  # inside volume\n", 0)
# assessment
m20("            valid_cams += 1\n", "            valid_cams += 2\n")
m20("            valid_cams += 1\n", "        valid_cams += 1\n")
m20("            valid_cams += 1\n", "            valid_cams = valid_cams + 1\n", 0)
m20("pixel = point_to_pixel(pos, run.cal[cam], run.cpar)", "pixel = point_to_pixel(pos, run.cal[0], run.cpar)")
m20("            frm.num_targets[cam],\n            pixel[0],\n            pixel[1],\n", "            frm.num_targets[cam],\n            pixel[1],\n            pixel[0],\n")
m20("            frm.num_targets[cam],\n            pixel[0],\n", "            frm.num_targets[0],\n            pixel[0],\n")
m20("targ_pos[cam][1] = frm.targets[cam][_ix].y", "targ_pos[cam][1] = frm.targets[0][_ix].y")
m20("targ_pos[cam][1] = frm.targets[cam][_ix].y", "targ_pos[cam][1] = frm.targets[cam][_ix].x")
m20("_ix = cand_inds[cam][0]  # first nearest neighbour", "_ix = cand_inds[cam][1]  # first nearest neighbour")
m20("                x, y, run.cal[cam], run.flatten_tol", "                x, y, run.cal[0], run.flatten_tol")
m20("                x, y, run.cal[cam], run.flatten_tol", "                y, x, run.cal[cam], run.flatten_tol")
m20("left, right, up, down = ADD_PART, ADD_PART, ADD_PART, ADD_PART", "left, right, up, down = ADD_PART, ADD_PART, ADD_PART, 2 * ADD_PART")
m20("            cand_inds[cam],\n            run.cpar,\n", "            cand_inds[0],\n            run.cpar,\n")
m20("        if num_cands > 0:\n", "        if num_cands >= 0:\n")
m20("        if num_cands > 0:\n", "        if num_cands:\n", 0)
m20("        if num_cands > 0:\n            _ix = cand_inds[cam][0]  # first nearest neighbour\n            targ_pos[cam][0] = frm.targets[cam][_ix].x\n            targ_pos[cam][1] = frm.targets[cam][_ix].y\n",
    "        row = cand_inds[cam]\n        if num_cands > 0:\n            t = frm.targets[cam][row[0]]\n            out = targ_pos[cam]\n            out[0] = t.x\n            out[1] = t.y\n", 0)
m20("        if (targ_pos[cam][0] != COORD_UNUSED) and (targ_pos[cam][1] != COORD_UNUSED):", "        if (targ_pos[cam][0] != COORD_UNUSED) or (targ_pos[cam][1] != COORD_UNUSED):", 0)
m20("    return valid_cams, targ_pos, cand_inds", "    return num_cands, targ_pos, cand_inds")
# nearest unused detection
m20("            if next_frame[j].tnr == TR_UNUSED:\n", "            if True:\n")
m20("            if next_frame[j].tnr == TR_UNUSED:\n", "            if next_frame[j].tnr != TR_UNUSED:\n")
m20("                    if d < dmin:\n                        dmin = d\n                        p[0] = j\n", "                    if d < dmin:\n                        p[0] = j\n")
m20("                    if d < dmin:\n                        dmin = d\n                        p[0] = j\n", "                    if d < dmin:\n                        p[0] = j\n                        dmin = d\n", 0)
m20("xmin, xmax, ymin, ymax = cent_x - dl, cent_x + dr, cent_y - du, cent_y + dd\n\n    xmin = max(xmin, 0.0)", "xmin, xmax, ymin, ymax = cent_x - dl, cent_x + dr, cent_y - du, cent_y + 2 * dd\n\n    xmin = max(xmin, 0.0)")
m20("                if xmin < next_frame[j].x < xmax and ymin < next_frame[j].y < ymax:\n                    d =", "                if xmin < next_frame[j].x < xmax:\n                    d =", 1, 2)
m20("                    d = np.sqrt(\n                        (cent_x - next_frame[j].x) ** 2\n                        + (cent_y - next_frame[j].y) ** 2\n                    )\n                    if d < dmin:\n                        dmin = d\n                        p[0] = j\n",
    "                    d = (cent_x - next_frame[j].x) ** 2 + (cent_y - next_frame[j].y) ** 2\n                    if d < dmin:\n                        dmin = d\n                        p[0] = j\n", 0)
m20("                    d = np.sqrt(\n                        (cent_x - next_frame[j].x) ** 2\n                        + (cent_y - next_frame[j].y) ** 2\n                    )\n                    if d < dmin:\n                        dmin = d\n                        p[0] = j\n",
    "                    d = (cent_x - next_frame[j].x) ** 2 + (cent_x - next_frame[j].y) ** 2\n                    if d < dmin:\n                        dmin = d\n                        p[0] = j\n")
# the particle
m20("    ref_path_inf.x = vec_copy(pos)\n", "    ref_path_inf.x = 1 * pos\n", 0)
m20("    ref_path_inf.x = vec_copy(pos)\n    ref_path_inf.reset_links()\n", "    ref_path_inf.x = vec_copy(pos)\n")
m20("    ref_path_inf.x = vec_copy(pos)\n    ref_path_inf.reset_links()\n", "    ref_path_inf.reset_links()\n    ref_path_inf.x = vec_copy(pos)\n", 0)
m20("        ref_corres.p[cam] = CORRES_NONE\n\n        # We", "        # We")
m20("        if cand_inds[cam][0] != TR_UNUSED:\n            _ix", "        if True:\n            _ix")
m20("            ref_targets[cam][_ix].tnr = num_parts\n", "")
m20("            ref_targets[cam][_ix].tnr = num_parts\n", "            ref_targets[cam][_ix].tnr = num_parts + 1\n")
m20("            ref_targets[cam][_ix].tnr = num_parts\n", "            ref_targets[0][_ix].tnr = num_parts\n")
m20("            ref_corres.p[cam] = _ix\n", "            ref_corres.p[cam] = num_parts\n", 1, 2)
m20("    frm.num_parts += 1\n\n\ndef track_forward_start", "    frm.num_parts = num_parts + 1\n\n\ndef track_forward_start", 0)
m20("    frm.num_parts += 1\n\n\ndef track_forward_start", "    frm.num_parts = len(frm.path_info)\n\n\ndef track_forward_start")
m20("    for cam in range(frm.num_cams):\n        ref_corres.p[cam] = CORRES_NONE\n", "    for cam in range(frm.num_cams - 1):\n        ref_corres.p[cam] = CORRES_NONE\n")
m20("        ref_path_inf = Pathinfo()\n        frm.path_info.append(ref_path_inf)\n", "        ref_path_inf = Pathinfo()\n        frm.path_info += [ref_path_inf]\n", 0)
m20("    num_parts = frm.num_parts\n    if num_parts < len(frm.path_info):", "    num_parts = frm.num_parts\n    if len(frm.path_info) > num_parts:", 0)


def m19(old, new, expect=1, nth=1, fn="track.py"):
    CASES.append(("C19", fn, [(old, new, nth)], "", expect))


FBF = "tracking_frame_buf.py"
m19("tr.seq_par.first + TR_BUFSPACE - 1):", "tr.seq_par.first + TR_BUFSPACE):")
m19("tr.seq_par.first + TR_BUFSPACE - 1):", "tr.seq_par.first + 3):", 0)
m19("        tr.fb.read_frame_at_end(step)\n        tr.fb.fb_next()\n\n    tr.fb.fb_prev()\n", "        tr.fb.read_frame_at_end(step)\n        tr.fb.fb_next()\n\n")
m19("        tr.fb.read_frame_at_end(step)\n        tr.fb.fb_next()\n\n    tr.fb.fb_prev()\n", "        if step > tr.seq_par.first:\n            tr.fb.fb_next()\n        tr.fb.read_frame_at_end(step)\n", 0)
m19("        tr.fb.read_frame_at_end(step)\n", "        tr.fb.read_frame_at_end(step, True)\n")
m19("    fb.fb_next()\n    if not fb.write_frame_from_start(step):\n        raise IOError(\"Could not write frame to disk\")\n\n    if step < run", "    if not fb.write_frame_from_start(step):\n        raise IOError(\"Could not write frame to disk\")\n    fb.fb_next()\n\n    if step < run")
m19("    if step < run_info.seq_par.last - 2:", "    if step < run_info.seq_par.last - 3:")
m19("    if step < run_info.seq_par.last - 2:", "    if step <= run_info.seq_par.last - 2:")
m19("    if step < run_info.seq_par.last - 2:", "    if step + 3 <= run_info.seq_par.last:", 0)
m19("        fb.read_frame_at_end(step + 3, False)", "        fb.read_frame_at_end(step + 2, False)")
m19("        fb.read_frame_at_end(step + 3, False)", "        nxt = step + TR_BUFSPACE - 1\n        fb.read_frame_at_end(nxt)", 0)
m19("        fb.read_frame_at_end(step + 3, False)\n    else:\n        # no frame follows the last one: do not keep a past frame in its place\n        fb.buf[-1] = Frame(fb.num_cams, fb.buf[-1].max_targets)\n", "        fb.read_frame_at_end(step + 3, False)\n")
m19("    run_info.fb.fb_next()\n    if not run_info", "    if not run_info")
m19("    run_info.fb.fb_next()\n    if not run_info", "    run_info.fb.fb_prev()\n    if not run_info")
m19("seq_par.last, seq_par.last - 4, -1):", "seq_par.last, seq_par.last - 3, -1):")
m19("seq_par.last, seq_par.last - 4, -1):", "seq_par.last - 1, seq_par.last - 5, -1):")
m19("        fb.read_frame_at_end(step, read_links=True)\n        fb.fb_next()\n\n    fb.fb_prev()\n", "        fb.read_frame_at_end(step, read_links=True)\n        fb.fb_next()\n")
m19("        fb.read_frame_at_end(step, read_links=True)\n", "        fb.read_frame_at_end(step)\n")
m19("    for step in range(seq_par.last - 1, seq_par.first, -1):", "    for step in range(seq_par.last - 1, seq_par.first + 1, -1):")
m19("    for step in range(seq_par.last - 1, seq_par.first, -1):", "    for step in range(seq_par.last, seq_par.first, -1):")
m19("    for step in range(seq_par.last - 1, seq_par.first, -1):", "    for step in range(seq_par.first + 1, seq_par.last):")
m19("    for step in range(seq_par.last - 1, seq_par.first, -1):", "    for step in reversed(range(seq_par.first + 1, seq_par.last)):", 0)
m19("        if step > seq_par.first + 2:\n", "        if step > seq_par.first + 3:\n")
m19("        if step > seq_par.first + 2:\n", "        if step - 3 >= seq_par.first:\n", 0)
m19("        if step > seq_par.first + 2:\n", "        if step > seq_par.first + 1:\n")
m19("            fb.read_frame_at_end(step - 3, read_links=True)", "            fb.read_frame_at_end(step - 3)")
m19("            fb.read_frame_at_end(step - 3, read_links=True)", "            fb.read_frame_at_end(step - 2, read_links=True)")
m19("    if not fb.write_frame_from_start(seq_par.first):", "    if not fb.write_frame_from_start(step):")
m19("    if not fb.write_frame_from_start(seq_par.first):", "    if not fb.write_frame_from_start(step - 1):", 0)
m19("self.buf.rotate(-1)", "self.buf.rotate(1)", 1, 1, FBF)
m19("self.buf.rotate(-1)", "self.buf.rotate(3)", 0, 1, FBF)
m19("self.buf.rotate(-1)", "self.buf.append(self.buf.popleft())", 0, 1, FBF)
m19("self.buf.rotate(1)  #", "self.buf.rotate(2)  #", 1, 1, FBF)
m19("        frame = self.buf[-1]  # last frame\n", "        frame = self.buf[0]  # last frame\n", 1, 1, FBF)
m19("        frame = self.buf[-1]  # last frame\n", "        frame = self.buf[len(self.buf) - 1]  # last frame\n", 0, 1, FBF)
m19("        frame = self.buf[-1]  # last frame\n", "        frame = self.buf[3]  # last frame\n", 0, 1, FBF)
m19("        frame = self.buf[0]  # always the first", "        frame = self.buf[1]  # always the first", 1, 1, FBF)
m19("        if read_links:\n            success = frame.read(\n", "        if not read_links:\n            success = frame.read(\n", 1, 1, FBF)
m19("                self.corres_file_base,\n                self.linkage_file_base,\n                self.prio_file_base,\n                self.target_file_base,\n                frame_num,\n            )\n        else:\n            success", "                self.corres_file_base,\n                self.prio_file_base,\n                self.linkage_file_base,\n                self.target_file_base,\n                frame_num,\n            )\n        else:\n            success", 1, 1, FBF)
m19("            self.corres_file_base,\n            self.linkage_file_base,\n            self.prio_file_base,\n            self.target_file_base,\n            frame_num,\n        )\n\n\ndef", "            self.linkage_file_base,\n            self.corres_file_base,\n            self.prio_file_base,\n            self.target_file_base,\n            frame_num,\n        )\n\n\ndef", 1, 1, FBF)
m19("read_targets(target_file_base[cam], frame_num)", "read_targets(target_file_base[0], frame_num)", 1, 1, FBF)
m19("read_targets(target_file_base[cam], frame_num)", "read_targets(target_file_base[self.num_cams - 1 - cam], frame_num)", 1, 1, FBF)
m19("            self.num_targets[cam] = len(self.targets[cam])\n", "            self.num_targets[cam] = len(self.targets[cam - 1])\n", 1, 1, FBF)
m19("        self.correspond = cor_buf\n        self.path_info = path_buf\n", "        self.correspond, self.path_info = cor_buf, path_buf\n", 0, 1, FBF)
m19("                [Frame(num_cams, max_targets) for _ in range(buf_len)], maxlen=buf_len\n            ),\n            # _ring", "                [Frame(num_cams, max_targets)] * buf_len, maxlen=buf_len\n            ),\n            # _ring", 1, 1, FBF)
m19("        self.linkage_file_base = linkage_file_base\n        self.prio_file_base = prio_file_base\n", "        self.linkage_file_base = prio_file_base\n        self.prio_file_base = linkage_file_base\n", 1, 1, FBF)
m19("            corres_file_base,\n            linkage_file_base,\n            prio_file_base,\n            seq_par.img_base_name,", "            corres_file_base,\n            prio_file_base,\n            linkage_file_base,\n            seq_par.img_base_name,", 1, 1, "tracking_run.py")
m19("            corres_file_base,\n            linkage_file_base,\n            prio_file_base,\n            seq_par.img_base_name,", "            corres_file_base=corres_file_base,\n            linkage_file_base=linkage_file_base,\n            prio_file_base=prio_file_base,\n            target_file_base=seq_par.img_base_name,", 0, 1, "tracking_run.py")


def m16(old, new, expect=1, nth=1):
    CASES.append(("C16", "sortgrid.py", [(old, new, nth)], "", expect))


m16("            (calib_point[0] > -eps)", "            (calib_point[0] > eps)")
m16("            (calib_point[0] > -eps)", "            (calib_point[0] > 0)")
m16("            (calib_point[0] > -eps)", "            (calib_point[0] + eps > 0)", 0)
m16("            and (calib_point[1] < cpar.imy + eps)", "            and (calib_point[1] < cpar.imx + eps)")
m16("            and (calib_point[1] < cpar.imy + eps)\n", "")
m16("            and (calib_point[1] < cpar.imy + eps)\n", "            and not (calib_point[1] >= eps + cpar.imy)\n", 0)
m16("            and (calib_point[1] < cpar.imy + eps)", "            and (calib_point[1] <= cpar.imy + eps)", 1)
m16("calib_point[0], calib_point[1], eps)", "calib_point[1], calib_point[0], eps)")
m16("calib_point[0], calib_point[1], eps)", "xp, yp, eps)")
m16("calib_point[0], calib_point[1], eps)", "calib_point[0], calib_point[1], 2 * eps)")
m16("calib_point[0], calib_point[1], eps)", "*calib_point, eps)", 0)
m16("            if j != -999:", "            if j > 0:")
m16("            if j != -999:", "            if j != PT_UNUSED:", 0)
m16("            if j != -999:", "            if j >= 0:", 0)
m16("            if j != -999:", "            if j != -1:")
m16("replace(pix[j], pnr=i)", "replace(pix[i], pnr=i)")
m16("replace(pix[j], pnr=i)", "replace(pix[j], pnr=j)")
m16("replace(pix[j], pnr=i)", "replace(pix[j], tnr=i)")
m16("replace(pix[j], pnr=i)", "replace(pix[j])")
m16("                sorted_pix[i] = replace(pix[j], pnr=i)\n", "                sorted_pix[i] = pix[j]\n                sorted_pix[i].pnr = i\n")
m16("                sorted_pix[i] = replace(pix[j], pnr=i)\n", "                found = replace(pix[j])\n                found.pnr = i\n                sorted_pix[i] = found\n", 0)
m16("                sorted_pix[i] = replace(pix[j], pnr=i)\n", "                t = pix[j]\n                sorted_pix[i] = Target(i, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)\n", 0)
m16("                sorted_pix[i] = replace(pix[j], pnr=i)\n", "                t = pix[j]\n                sorted_pix[i] = Target(i, t.x, t.y, t.n, t.ny, t.nx, t.sumg, t.tnr)\n")
m16("                sorted_pix[i] = replace(pix[j], pnr=i)\n", "                sorted_pix[j] = replace(pix[j], pnr=i)\n")
m16("img_coord(fix[i], cal, cpar.mm)\n\n        calib", "img_coord(fix[i - 1], cal, cpar.mm)\n\n        calib")
m16("    for i in range(nfix):", "    for i in range(nfix - 1):")
m16("    for i in range(nfix):", "    for i in range(1, nfix):")
m16("    for i in range(nfix):", "    for i, _ in enumerate(sorted_pix):", 0)
m16("[Target() for _ in range(nfix)]", "[Target()] * nfix")
m16("[Target() for _ in range(nfix)]", "[Target(pnr=0) for _ in range(nfix)]")
m16("    pnr = PT_UNUSED\n", "    pnr = 0\n")
m16("    dmin = POS_INF\n", "    dmin = eps\n")
m16("    dmin = POS_INF\n", "    dmin = float(\"inf\")\n", 0)
m16("x - eps, x + eps, y - eps, y + eps", "x - eps, x + eps, y - eps / 2, y + eps")
m16("        if ymin < t.y < ymax and xmin < t.x < xmax:", "        if ymin < t.y < ymax and xmin < t.x <= xmax:")
m16("        if ymin < t.y < ymax and xmin < t.x < xmax:", "        if abs(t.y - y) < eps and abs(t.x - x) < eps:", 0)
m16("        if ymin < t.y < ymax and xmin < t.x < xmax:", "        if abs(t.y - y) < eps or abs(t.x - x) < eps:")
m16("        if ymin < t.y < ymax and xmin < t.x < xmax:", "        if ymin < t.y < ymax and xmin < t.x < xmax and t.tnr < 0:")
m16("            if d < dmin:\n                dmin = d\n                pnr = count", "            if d < eps:\n                dmin = d\n                pnr = count")
m16("            if d < dmin:\n                dmin = d\n                pnr = count", "            if d < dmin:\n                pnr = count")
m16("            if d < dmin:\n                dmin = d\n                pnr = count", "            if d < dmin:\n                pnr = count\n                break")
m16("            if d < dmin:\n                dmin = d\n                pnr = count", "            if d < dmin:\n                pnr = count\n            dmin = d\n")
m16("            if d < dmin:\n                dmin = d\n                pnr = count", "            if d > dmin:\n                dmin = d\n                pnr = count")
m16("            if d < dmin:\n                dmin = d\n                pnr = count", "            if d >= dmin:\n                continue\n            dmin, pnr = d, count", 0)
m16("            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)", "            d = np.sqrt((x - t.x) ** 2 + (x - t.y) ** 2)")
m16("            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)", "            d = np.hypot(t.x - x, t.y - y)", 0)
m16("            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)", "            dx = x - t.x\n            dy = y - t.y\n            d = dx * dx + dy * dy", 0)
m16("            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)", "            d = abs(x - t.x) + abs(y - t.y)")
m16("    for count, t in enumerate(pix):", "    for count, t in enumerate(pix[1:]):")
m16("    for count, t in enumerate(pix):", "    for count in range(len(pix)):\n        t = pix[count]", 0)
m16("    for count, t in enumerate(pix):", "    for count, t in enumerate(pix, 1):")


# ---- C10
def m10(fn, old, new, expect=1, nth=1):
    CASES.append(("C10", fn, [(old, new, nth)], "", expect))


CO, TR, OR = "correspondences.py", "track.py", "orientation.py"
m10(CO, "                    calib[i1],\n                    calib[i2],\n", "                    calib[i2],\n                    calib[i1],\n")
m10(CO, "                    frm.targets[i1][pt1].nx,", "                    frm.targets[i2][pt1].nx,")
m10(CO, "                    frm.targets[i2],\n", "                    frm.targets[i1],\n")
m10(CO, "                    frm.num_targets[i2],\n", "                    frm.num_targets[i1],\n")
m10(CO, "                    cpar,\n                    calib[i2],", "                    cpar,\n                    calib[i1],")
m10(CO, "                    corrected[i1][i].y,", "                    corrected[i2][i].y,")
m10(CO, "            for i in range(frm.num_targets[i1]):", "            for i in range(frm.num_targets[i2]):")
m10(CO, "corr_lists[i1][i2][i].p2[j] = cand[j].pnr", "corr_lists[i2][i1][i].p2[j] = cand[j].pnr")
m10(CO, "tusage[cam][tnum] += 1", "tusage[0][tnum] += 1")
m10(CO, "                p1 = flat_coords[cam][geo_id].pnr", "                p1 = flat_coords[0][geo_id].pnr")
m10(CO, "                    targ = img_pts[cam][p1]", "                    targ = img_pts[cam - 1][p1]")
m10(CO, "        frm.num_targets[cam] = len(img_pts[cam])", "        frm.num_targets[cam] = len(img_pts[0])")
m10(CO, "            p1 = corrected[j][con[i].p[j]].pnr", "            p1 = corrected[0][con[i].p[j]].pnr")
m10(CO, "                frm.targets[j][p1].tnr = i", "                frm.targets[0][p1].tnr = i")
m10(CO, "        for j in range(cpar.num_cams):\n            # Skip", "        for j in range(4):\n            # Skip")
m10(TR, "center = point_to_pixel(point, cal[i], cpar)", "center = point_to_pixel(point, cal[0], cpar)")
m10(TR, "            corner = point_to_pixel(quader[pt], cal[i], cpar)", "            corner = point_to_pixel(quader[pt], cal[0], cpar)")
m10(TR, "            frm.num_targets[cam],\n            cam,\n", "            frm.num_targets[0],\n            cam,\n")
m10(TR, "            center_proj[cam][1],\n", "            center_proj[0][1],\n")
m10(TR, "            left[cam],\n", "            left[0],\n")
m10(TR, "            points[cam * MAX_CANDS :],", "            points[(cam + 1) * MAX_CANDS :],")
m10(TR, "                x, y, run.cal[cam], run.flatten_tol", "                x, y, run.cal[0], run.flatten_tol")
m10(TR, "            targ_pos[cam][0] = frm.targets[cam][_ix].x", "            targ_pos[cam][0] = frm.targets[0][_ix].x")
m10(TR, "pixel = point_to_pixel(pos, run.cal[cam], run.cpar)", "pixel = point_to_pixel(pos, run.cal[cam - 1], run.cpar)")
m10(TR, "            _ix = cand_inds[cam][0]\n            ref_targets", "            _ix = cand_inds[0][0]\n            ref_targets")
m10(TR, "                    v1[j] = np.r_[curr_targets[j][_ix].x, curr_targets[j][_ix].y]", "                    v1[j] = np.r_[curr_targets[j][_ix].x, curr_targets[0][_ix].y]")
m10(TR, "                v1[j] = point_to_pixel(X[5], cal[j], cpar)", "                v1[j] = point_to_pixel(X[5], cal[0], cpar)")
m10(TR, "                    _ix = curr_corres.p[j]", "                    _ix = curr_corres.p[0]")
m10(OR, "                targets[cam][0], targets[cam][1], cals[cam], multimed_pars", "                targets[cam][0], targets[cam][1], cals[0], multimed_pars")
m10(OR, "vertices[cam], directs[cam], vertices[pair], directs[pair]", "vertices[cam], directs[pair], vertices[pair], directs[cam]")
m10("multimed.py", "pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)", "pos, a = ray_tracing(x, y, cal[0], cpar.mm)")
m10("tracking_frame_buf.py", "                self.targets[cam] = read_targets(target_file_base[cam], frame_num)", "                self.targets[cam] = read_targets(target_file_base[0], frame_num)")
m10("tracking_frame_buf.py", "            self.num_targets[cam] = len(self.targets[cam])", "            self.num_targets[cam] = len(self.targets[0])")
m10("tracking_frame_buf.py", "                self.num_targets[cam],\n", "                self.num_targets[-1],\n")
# refactorings
m10(TR, "    for cam in range(frm.num_cams):\n        register_closest_neighbs(\n            frm.targets[cam],\n            frm.num_targets[cam],\n            cam,\n            center_proj[cam][0],\n            center_proj[cam][1],",
    "    for cam, (targets, proj) in enumerate(zip(frm.targets, center_proj)):\n        register_closest_neighbs(\n            targets,\n            len(targets) and frm.num_targets[cam],\n            cam,\n            proj[0],\n            proj[1],", 0)
m10(OR, "    for cam in range(num_cams):\n        if targets[cam][0] != COORD_UNUSED:\n            vertices[cam], directs[cam] = ray_tracing(\n                targets[cam][0], targets[cam][1], cals[cam], multimed_pars\n            )",
    "    for cam, (targ, cal) in enumerate(zip(targets, cals)):\n        if targ[0] != COORD_UNUSED:\n            vertices[cam], directs[cam] = ray_tracing(targ[0], targ[1], cal, multimed_pars)", 0)
m10(TR, "        # Convert 3D search position to 2D pixel coordinates\n        pixel = point_to_pixel(pos, run.cal[cam], run.cpar)", "        pixel = pixels[cam]", 0)
CASES[-1][2].append(("    # for cam in range(run.cpar.num_cams):\n    #     targ_pos", "    pixels = [point_to_pixel(pos, run.cal[c], run.cpar) for c in range(run.cpar.num_cams)]\n    # for cam in range(run.cpar.num_cams):\n    #     targ_pos"))
m10(TR, "        # Convert 3D search position to 2D pixel coordinates\n        pixel = point_to_pixel(pos, run.cal[cam], run.cpar)", "        pixel = pixels[cam]", 0)
CASES[-1][2].append(("    # for cam in range(run.cpar.num_cams):\n    #     targ_pos", "    pixels = [point_to_pixel(pos, cal, run.cpar) for cal in run.cal]\n    # for cam in range(run.cpar.num_cams):\n    #     targ_pos"))
m10(TR, "            for j in range(fb.num_cams):\n                v1[j] = point_to_pixel(X[2], cal[j], cpar)", "            for j, one in enumerate(cal):\n                v1[j] = point_to_pixel(X[2], one, cpar)", 0)
m10(TR, "            for j in range(fb.num_cams):\n                v1[j] = point_to_pixel(X[2], cal[j], cpar)", "            v1 = np.array([point_to_pixel(X[2], one, cpar) for one in cal])", 0)
m10(CO, "    for i1 in range(cpar.num_cams - 1):\n        for i2 in range(i1 + 1, cpar.num_cams):\n            for i in range(frm.num_targets[i1]):",
    "    for i1 in range(cpar.num_cams - 1):\n      first = corrected[i1]\n      for i2 in range(i1 + 1, cpar.num_cams):\n            second = corrected[i2]\n            for i in range(frm.num_targets[i1]):", 0)
CASES[-1][2].extend([("                    corrected[i1][i].x,\n                    corrected[i1][i].y,", "                    first[i].x,\n                    first[i].y,"), ("                    corrected[i2],\n", "                    second,\n")])
m10("tracking_frame_buf.py", "        for cam in range(self.num_cams):\n            try:\n                self.targets[cam] = read_targets(target_file_base[cam], frame_num)\n            except IOError:\n                return False\n            self.num_targets[cam] = len(self.targets[cam])",
    "        for cam, base in zip(range(self.num_cams), target_file_base):\n            try:\n                targets = read_targets(base, frame_num)\n            except IOError:\n                return False\n            self.targets[cam] = targets\n            self.num_targets[cam] = len(targets)", 0)
m10("tracking_frame_buf.py", "        for cam in range(self.num_cams):\n            try:\n                self.targets[cam] = read_targets(target_file_base[cam], frame_num)\n            except IOError:\n                return False\n            self.num_targets[cam] = len(self.targets[cam])",
    "        try:\n            lists = [read_targets(target_file_base[c], frame_num) for c in range(self.num_cams)]\n        except IOError:\n            return False\n        self.targets = lists\n        self.num_targets = [len(x) for x in lists]", 0)
m10("multimed.py", "    for i_cam in range(cpar.num_cams):", "    for i_cam, one in enumerate(cal[:cpar.num_cams]):", 0)
CASES[-1][2].append(("dist_to_flat(x, y, cal[i_cam])", "dist_to_flat(x, y, one)"))
m10("multimed.py", "    for i_cam in range(cpar.num_cams):", "    for one in cal:", 0)
CASES[-1][2].extend([("dist_to_flat(x, y, cal[i_cam])", "dist_to_flat(x, y, one)"), ("ray_tracing(x, y, cal[i_cam], cpar.mm)", "ray_tracing(x, y, one, cpar.mm)")])


# ---- C23
def m23(old, new, expect=1, nth=1):
    CASES.append(("C23", "orientation.py", [(old, new, nth)], "", expect))


ND = "        cal.increment_attribute(var[pd], steps[pd])\n"
m23("        cal.increment_attribute(var[pd], -steps[pd])\n", "")
m23("        cal.increment_attribute(var[pd], -steps[pd])\n", "        cal.increment_attribute(var[pd], steps[pd])\n")
m23("        cal.increment_attribute(var[pd], -steps[pd])\n", "        cal.increment_attribute(var[pd], -dpos)\n")
m23("    steps = [dpos, dpos, dpos, dang, dang, dang]", "    steps = [dpos, dpos, dpos, dang, dang, dpos]")
m23("    steps = [dpos, dpos, dpos, dang, dang, dang]", "    steps = [dpos] * 3 + [dang] * 3", 0)
m23("    cal.update_rotation_matrix()\n\n    return (x_ders, y_ders)", "    return (x_ders, y_ders)", 0)
m23("        if pd > 2:\n            cal.update_rotation_matrix()", "        if pd > 3:\n            cal.update_rotation_matrix()", 0)
m23("        if pd > 2:\n            cal.update_rotation_matrix()", "        cal.update_rotation_matrix()", 0)
m23("        if pd > 2:\n            cal.update_rotation_matrix()\n\n", "", 0)
m23("        x_ders[pd] = (xpd - xs) / steps[pd]", "        x_ders[pd] = (xpd - xs) / dpos")
m23("        y_ders[pd] = (ypd - ys) / steps[pd]", "        y_ders[pd] = (ypd - xs) / steps[pd]")
m23("        y_ders[pd] = (ypd - ys) / steps[pd]", "        y_ders[pd] = (xpd - ys) / steps[pd]")
m23('    var = ["x0", "y0", "z0", "omega", "phi", "kappa"]', '    var = ["x0", "y0", "z0", "phi", "omega", "kappa"]')
m23("    cal.update_rotation_matrix()\n    xs, ys = img_coord(pos, cal, cpar.mm)", "    xs, ys = img_coord(pos, cal, cpar.mm)")
m23("        x_ders[pd] = (xpd - xs) / steps[pd]\n", "        x_ders[pd] = (xpd - xs) / steps[pd]\n        xs, ys = xpd, ypd\n")
m23("        cal.increment_attribute(var[pd], -steps[pd])\n", "        cal.increment_attribute(var[pd], -steps[pd])\n        if pd > 2:\n            cal.update_rotation_matrix()\n", 0)
m23("            cal.int_par.cc -= dm\n", "")
m23("            cal.int_par.cc -= dm\n", "            cal.int_par.cc -= drad\n")
m23("            cal.int_par.cc += dm\n", "            cal.int_par.xh += dm\n")
m23("            X[n + 1][6] = (ypd - yp) / dm", "            X[n + 1][6] = (ypd - xp) / dm")
m23("            X[n][6] = (xpd - xp) / dm", "            X[n][6] = (xpd - xp) / drad")
m23("            cal.glass_par[0] = safety_x\n", "")
m23("            cal.glass_par[1] = safety_y\n", "            cal.glass_par[1] = safety_x\n", 0, 2)
m23("            cal.glass_par[2] = safety_z\n", "", 1, 3)
m23("    cal = Calibration()\n    cal_in.copy(cal)\n", "    cal = cal_in\n")
m23("    cal_in.copy(cal)\n", "    cal.ext_par = cal_in.ext_par\n    cal.int_par = cal_in.int_par.copy()\n    cal.glass_par = cal_in.glass_par.copy()\n    cal.added_par = cal_in.added_par.copy()\n")
m23("    cal_in.copy(cal)\n", "    cal.ext_par = cal_in.ext_par.copy()\n    cal.int_par = cal_in.int_par.copy()\n    cal.glass_par = cal_in.glass_par\n    cal.added_par = cal_in.added_par.copy()\n")
m23("    if stopflag:\n        cal.update_rotation_matrix()\n        cal.copy(cal_in)\n        return resi\n", "    cal.update_rotation_matrix()\n    cal.copy(cal_in)\n    if stopflag:\n        return resi\n")
m23("    if stopflag:\n        cal.update_rotation_matrix()\n        cal.copy(cal_in)\n        return resi\n    else:\n        return None\n", "    if not stopflag:\n        return None\n    cal.update_rotation_matrix()\n    cal.copy(cal_in)\n    return resi\n", 0)
m23('        raise ValueError("Orientation iteration failed, need better setup.")\n', '        return np.empty((0, 2)), np.empty(0, dtype=int), err_est\n')
m23("num_deriv_exterior(cal, cpar, dm, drad, fix[i])", "num_deriv_exterior(cal, cpar, drad, dm, fix[i])")
m23("num_deriv_exterior(cal, cpar, dm, drad, pos)", "num_deriv_exterior(cal, cpar, drad, dm, pos)")
m23("            cal.int_par.cc -= dm\n\n            # al += dm\n", "            # al += dm\n", 1)
m23("            xpd, ypd = img_coord(fix[i], cal, cpar.mm)\n            X[n][16]", "            cal.int_par.cc += dm\n            xpd, ypd = img_coord(fix[i], cal, cpar.mm)\n            cal.int_par.cc -= dm\n            X[n][16]")
m23("            cal.int_par.cc += dm\n", "            cc0 = cal.int_par.cc\n            cal.int_par.cc = cc0 + dm\n", 0)
CASES[-1][2].append(("            cal.int_par.cc -= dm\n", "            cal.int_par.cc = cc0\n"))
m23("            # al += dm\n            cal.glass_par[0] += e1[0] * nGl * dm\n            cal.glass_par[1] += e1[1] * nGl * dm\n            cal.glass_par[2] += e1[2] * nGl * dm\n", "            cal.glass_par += e1 * nGl * dm\n", 0)


# ---- C22
def m22(old, new, expect=1, nth=1):
    CASES.append(("C22", "orientation.py", [(old, new, nth)], "", expect))


m22("        if not flags.k1flag:\n            beta[9] = 0.0\n", "        if not flags.k1flag:\n            beta[10] = 0.0\n")
m22("        if not flags.k2flag:\n            beta[10] = 0.0\n", "        if not flags.k1flag:\n            beta[10] = 0.0\n")
m22("        if not flags.sheflag:\n            beta[15] = 0.0\n", "")
m22("        if not flags.ccflag:\n            beta[6] = 0.0\n", "        if flags.ccflag == 0:\n            beta[6] = 0\n", 0)
m22("        if not flags.ccflag:\n            beta[6] = 0.0\n", "        beta[6] *= bool(flags.ccflag)\n", 0)
m22("            cal.added_par[1] += beta[10]", "            cal.added_par[2] += beta[10]") if False else None
m22("        cal.added_par[1] += beta[10]\n        cal.added_par[2] += beta[11]\n", "        cal.added_par[2] += beta[10]\n        cal.added_par[1] += beta[11]\n")
m22("        cal.ext_par.omega += beta[3]\n", "        cal.ext_par.omega -= beta[3]\n")
m22("        cal.ext_par.kappa += beta[5]\n", "")
m22("        cal.int_par.xh += beta[7]\n        cal.int_par.yh += beta[8]\n", "        cal.int_par.xh += beta[8]\n        cal.int_par.yh += beta[7]\n")
m22("        if flags.interfflag:\n            cal.glass_par[0] += e1[0]", "        if numbers >= 16:\n            cal.glass_par[0] += e1[0]")
m22("            cal.glass_par[1] += e2[1] * nGl * beta[17]", "            cal.glass_par[1] += e2[1] * nGl * beta[16]") if False else None
m22("        P[n_obs + 3] = POS_INF if not flags.k1flag else 1", "        P[n_obs + 3] = POS_INF if not flags.k2flag else 1")
m22("        P[n_obs + 3] = POS_INF if not flags.k1flag else 1", "        P[n_obs + 3] = POS_INF if flags.k1flag else 1")
m22("        P[n_obs + 3] = POS_INF if not flags.k1flag else 1", "        P[n_obs + 3] = 1 if flags.k1flag else POS_INF", 0)
m22("        y[n_obs + 4] = ident[4] - cal.added_par[1]\n", "        y[n_obs + 4] = ident[5] - cal.added_par[1]\n")
m22("        y[n_obs + 4] = ident[4] - cal.added_par[1]\n", "        y[n_obs + 4] = cal.added_par[1] - ident[4]\n")
m22("            X[n_obs + i][6 + i] = 1", "            X[n_obs + i][7 + i] = 1")
m22("    if pix[i].pnr != i:  # we need to check this point here\n        return False\n\n", "")
m22("    if pix[i].pnr != i:", "    if pix[i].pnr < 0:")
m22("    if flags.useflag == 1 and i % 2 == 0:", "    if flags.useflag == 1 and i % 2 != 0:")
m22("    elif flags.useflag == 3 and i % 3 == 0:", "    elif flags.useflag == 3 and i % 3 != 0:")
m22("    elif flags.useflag == 2 and i % 2 != 0:", "    if flags.useflag == 2 and i % 2 == 1:", 0)
m22("            if not is_used_for_orientation(i, pix, flags):\n                continue\n", "            if pix[i].pnr != i:\n                continue\n")
m22("            if not is_used_for_orientation(i, pix, flags):\n                continue\n", "")
m22("pixel_to_metric(pix[i].x, pix[i].y, cpar)\n\n            # Projected", "pixel_to_metric(pix[i].y, pix[i].x, cpar)\n\n            # Projected")
m22("            y[n] = xc - xp\n", "            y[n] = xp - xc\n")
m22("            y[n + 1] = yc - yp\n", "            y[n + 1] = yc - xp\n")
m22("            y[n] = xc - xp\n            y[n + 1] = yc - yp\n\n            n += 2\n            # end", "            y[n], y[n + 1] = xc - xp, yc - yp\n\n            n = n + 2\n            # end", 0)
m22("            X[n][10] = cal.added_par[5] * xp * pow(r, 4)", "            X[n][10] = cal.added_par[5] * xp * pow(r, 6)")
m22("            X[n + 1][13] = 2 * yp * yp + r * r", "            X[n + 1][13] = 2 * xp * xp + r * r")
m22("            X[n][15] = -np.cos(cal.added_par[6]) * yp", "            X[n][15] = -np.cos(cal.added_par[6]) * xp")
m22("            X[n][8] = 0\n            X[n + 1][8] = 1", "            X[n][8] = 1\n            X[n + 1][8] = 0")
m22("            X[n][:6], X[n + 1][:6] = num_deriv_exterior", "            X[n + 1][:6], X[n][:6] = num_deriv_exterior")
m22("            r = np.sqrt(xp * xp + yp * yp)\n", "            r = np.hypot(xp, yp)\n", 0)
m22("        for i in range(nfix):\n            if not is_used", "        for i in range(nfix - 1):\n            if not is_used")
m22("            if is_used_for_orientation(i, targs, orient_par)", "            if targs[i].pnr == i")
m22("            if is_used_for_orientation(i, targs, orient_par)", "            if not is_used_for_orientation(i, targs, orient_par)")
m22("        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])", "        ret[ix] = (residuals[2 * used[ix]], residuals[2 * used[ix] + 1])")
m22("        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])", "        ret[ix] = (residuals[2 * ix + 1], residuals[2 * ix])")
m22("            Xh[:, :numbers], yh, lapack", "            Xh[:, 1:numbers], yh, lapack")
m22("        for ptx, pt in enumerate(img_pts):", "        for ptx, pt in enumerate(img_pts, 1):") if False else None
m22("            X[n + 1][17] = (ypd - yp) / dm", "            X[n + 1][17] = (ypd - yp) / dm\n            pass", 0)
m22("    used = np.array(\n        [\n            i\n            for i in range(len(ref_pts))\n            if is_used_for_orientation(i, targs, orient_par)\n        ],\n        dtype=np.int_,\n    )", "    sel_ = []\n    for i in range(len(ref_pts)):\n        if is_used_for_orientation(i, targs, orient_par):\n            sel_.append(i)\n    used = np.array(sel_, dtype=np.int_)", 0)
m22("    if flags.interfflag:\n        numbers = 18\n    else:\n        numbers = 16\n", "    numbers = 18 if flags.interfflag else 16\n", 0)
m22("    if flags.interfflag:\n        numbers = 18\n    else:\n        numbers = 16\n", "    if flags.interfflag:\n        numbers = 18\n    else:\n        numbers = 15\n")


# ---- C21
TF, CA, PA, TK = "tracking_frame_buf.py", "calibration.py", "parameters.py", "track.py"


def m21(fn, *eds, expect=1):
    CASES.append(("C21", fn, [e if len(e) == 3 else e + (1,) for e in eds], "", expect))


m21(TF, ("        print(f\"Can't open ascii file: {filename}\")\n        raise err\n", "        print(f\"Can't open ascii file: {filename}\")\n"))
m21(TF, ("        print(f\"Can't open ascii file: {filename}\")\n        raise err\n", "        print(f\"Can't open ascii file: {filename}\")\n        raise\n"), expect=0)
m21(TF, ("        print(f\"Can't open ascii file: {filename}\")\n        raise err\n", "        raise RuntimeError(filename) from err\n"), expect=0)
m21(TF, ("        print(f\"Can't open ascii file: {filename}\")\n        raise err\n", "        return []\n"))
m21(TF, ("    except IOError as err:\n        print(f\"Can't open ascii file: {filename}\")\n        raise err\n", "    except FileNotFoundError:\n        print('x')\n"))
m21(TF, ("    success = False\n\n    # fix old", "    success = True\n\n    # fix old"))
m21(TF, ("        success = True\n    except IOError:\n        print(f\"Can't open ascii file: {file_name}\")\n\n    return success", "        return True\n    except IOError:\n        print(f\"Can't open ascii file: {file_name}\")\n\n    return True"))
m21(TF, ("        success = True\n    except IOError:\n        print(f\"Can't open ascii file: {file_name}\")\n\n    return success", "        return True\n    except OSError:\n        return False"), expect=0)
m21(TF, ("        success = True\n    except IOError:\n        print(f\"Can't open ascii file: {file_name}\")\n\n    return success", "    except IOError:\n        print(f\"Can't open ascii file: {file_name}\")\n    finally:\n        success = True\n\n    return success"))
m21(TF, ("        success = True\n    except IOError:\n        print(f\"Can't open ascii file: {file_name}\")\n", "    except IOError:\n        print(f\"Can't open ascii file: {file_name}\")\n    else:\n        success = True\n"), expect=0)
m21(TF, ("        # Save the target array to file using savetxt\n", "        success = True\n"))
m21(TF, ("        except IOError:\n            return False\n\n        self.correspond", "        except IOError:\n            return True\n\n        self.correspond"))
m21(TF, ("        except IOError:\n            return False\n\n        self.correspond", "        except IOError:\n            cor_buf, path_buf = [], []\n\n        self.correspond"))
m21(TF, ("            except IOError:\n                return False\n            self.num_targets", "            except IOError:\n                self.targets[cam] = []\n            self.num_targets"))
m21(TF, ("            except IOError:\n                return False\n            self.num_targets", "            except IOError:\n                continue\n            self.num_targets"))
m21(TF, ("            except IOError:\n                return False\n            self.num_targets", "            except IOError:\n                break\n            self.num_targets"))
m21(TF, ("            except IOError:\n                return False\n            self.num_targets", "            except (IOError, ValueError) as e:\n                print(e)\n                return False\n            self.num_targets"), expect=0)
m21(TF, ("        if status == 0:\n            return False\n\n        for cam", "        for cam"))
m21(TF, ("        if status == 0:\n            return False\n\n        for cam", "        if status:\n            return False\n\n        for cam"))
m21(TF, ("        if status == 0:\n            return False\n\n        for cam", "        if not status:\n            return False\n\n        for cam"), expect=0)
m21(TF, ("            if status == 0:\n                return False\n\n        return True", "        return True"))
m21(TF, ("            if status == 0:\n                return False\n\n        return True", "        return bool(status)"))
m21(TF, ("            if status == 0:\n                return False\n\n        return True", "            if status is False:\n                return False\n\n        return True"), expect=0)
m21(TF, ("            status = write_targets(", "            status = status and write_targets("), ("            if status == 0:\n                return False\n\n        return True", "        return bool(status)"), expect=0)
m21(TF, ("        if not success:\n            raise IOError(\"Could not read frame from disk\")\n", ""))
m21(TF, ("        if not success:\n            raise IOError(\"Could not read frame from disk\")\n", "        if not success:\n            print('Could not read')\n"))
m21(TF, ("        if not success:\n            raise IOError(\"Could not read frame from disk\")\n", "        if success:\n            return\n        raise IOError(\"Could not read frame from disk\")\n"), expect=0)
m21(TF, ("        if not success:\n            raise IOError(\"Could not read frame from disk\")\n", "        assert_read(success)\n"), ("@dataclass\nclass Pathinfo:", "def assert_read(ok):\n    if not ok:\n        raise IOError('no frame')\n\n\n@dataclass\nclass Pathinfo:"), expect=0)
m21(TF, ("            print(f\"Can't open linkage file: {fname}\")\n            raise\n\n        linkagein.readline()", "            print(f\"Can't open linkage file: {fname}\")\n            linkagein = None\n        else:\n            linkagein.readline()"))
m21(TF, ("            print(f\"Can't open prio file: {fname}\")\n            raise\n\n        prioin.readline()", "            prioin = None\n        if prioin is not None:\n            prioin.readline()"))
m21(TF, ("        print(f\"Can't open ascii file: {fname}\")\n        raise\n", "        return [], []\n"))
m21(TF, ("        success = True\n\n    except IOError as e:", "    except IOError as e:"), ("        corres_file.close()\n", "        success = True\n        corres_file.close()\n"))
m21(TF, ("        success = True\n\n    except IOError as e:", "    except IOError as e:"), ("            prio_file.close()\n", "            prio_file.close()\n        success = True\n"), expect=0)
m21(TF, ("        success = True\n\n    except IOError as e:\n        print(f\"Can't open file {e.filename} for writing\")\n", "    except IOError as e:\n        print(f\"Can't open file {e.filename} for writing\")\n\n    success = True\n"))
m21(CA, ("        if not success:\n            raise IOError(\"Failed to write ori file\")\n", ""), ("    with open(filename, \"w\", encoding=\"utf-8\") as fp:\n        fp.write(f\"{ext_par['x0']", "    try:\n        open(filename, 'w').close()\n    except OSError:\n        return False\n    with open(filename, \"w\", encoding=\"utf-8\") as fp:\n        fp.write(f\"{ext_par['x0']"))
m21(CA, ("        if not ori_file.exists():\n            raise IOError(f\"File {ori_file} does not exist\")\n\n        ret = cls()\n", "        ret = cls()\n        if not ori_file.exists():\n            return ret\n"))
m21(CA, ("        if not ori_file.exists():\n            raise IOError(f\"File {ori_file} does not exist\")\n\n", ""), expect=0)
m21(CA, ("        if add_file is not None:\n", "        if add_file is not None and add_file.exists():\n"))
m21(CA, ("    with open(add_file, \"w\", encoding=\"utf-8\") as fp:\n        fp.write(\n            f\"{added_par[0]:.8f} {added_par[1]:.8f} {added_par[2]:.8f} \"\n            f\"{added_par[3]:.8f} {added_par[4]:.8f} {added_par[5]:.8f} {added_par[6]:.8f}\\n\"\n        )\n        success = True\n", "    success = True\n    try:\n        with open(add_file, \"w\", encoding=\"utf-8\") as fp:\n            fp.write(' '.join(str(a) for a in added_par))\n    except OSError as e:\n        print(e)\n"))
m21(CA, ("    success = False\n\n    with open(filename", "    import contextlib\n    success = True\n\n    with contextlib.suppress(OSError), open(filename"), ("    if add_file is None:\n        return True\n", "    if add_file is None:\n        return success\n"))
m21(PA, ("            print(f\"Could not open orientation parameters file {filename}.\")\n            raise\n", "            print(f\"Could not open orientation parameters file {filename}.\")\n"))
m21(PA, ("            print(f\"Could not open target recognition parameters file {filename}.\")\n            raise\n", "            print(f\"Could not open target recognition parameters file {filename}.\")\n            return cls()\n"))
m21(PA, ("        if not filename.exists():\n            raise FileNotFoundError(f\"Could not open file {filename}\")\n", "        if not filename.exists():\n            return cls(4)\n"))
m21(PA, ("        if not filename.exists():\n            raise IOError(\"File {filename} does not exist.\")\n", "        if not filename.exists():\n            print('missing')\n            return ret\n")) if False else None
m21(PA, ("            raise IOError(\n", "            print(\n"))
m21(TK, ("    if not fb.write_frame_from_start(step):\n        raise IOError(\"Could not write frame to disk\")\n", "    fb.write_frame_from_start(step)\n"))
m21(TK, ("    if not fb.write_frame_from_start(step):\n        raise IOError(\"Could not write frame to disk\")\n", "    if not fb.write_frame_from_start(step):\n        print(\"Could not write frame to disk\")\n"))
m21(TK, ("    if not run_info.fb.write_frame_from_start(step):\n        raise IOError(\"Could not write frame to disk\")\n", "    run_info.fb.write_frame_from_start(step)\n"))
m21(TK, ("        if not fb.write_frame_from_start(step):\n            raise IOError(\"Could not write frame to disk\")\n\n        if step >", "        fb.write_frame_from_start(step)\n\n        if step >"))
m21(TK, ("        fb.read_frame_at_end(step + 3, False)\n", "        try:\n            fb.read_frame_at_end(step + 3, False)\n        except IOError as e:\n            print(e)\n"))
m21(TK, ("        fb.read_frame_at_end(step + 3, False)\n", "        fb.disk_read_frame_at_end(step + 3, False)\n"))
m21(TK, ("        if step > seq_par.first + 2:\n            fb.read_frame_at_end(step - 3, read_links=True)\n", "        if step > seq_par.first + 2:\n            ok = fb.disk_read_frame_at_end(step - 3, True)\n            if not ok:\n                raise IOError('x')\n"), expect=0)
m21(TK, ("    if not fb.write_frame_from_start(step):\n        raise IOError(\"Could not write frame to disk\")\n", "    written = fb.write_frame_from_start(step)\n    if written is False:\n        raise IOError(\"Could not write frame to disk\")\n"), expect=0)


# ---- C15
def m15(fn, *eds, expect=1):
    CASES.append(("C15", fn, [e if len(e) == 3 else e + (1,) for e in eds], "", expect))


SG = "sortgrid.py"
m15(TK, ("            if curr_path_inf.prev_frame >= 0:\n", "            if curr_path_inf.prev_frame != PREV_NONE:\n", 1), expect=0) if False else None
m15(TK, ("        if curr_path_inf.prev_frame >= 0:\n", "        if curr_path_inf.prev_frame != PREV_NONE:\n"), expect=0)
m15(TK, ("        if curr_path_inf.prev_frame >= 0:\n", "        if curr_path_inf.prev_frame != NEXT_NONE:\n"))
m15(TK, ("        if curr_path_inf.prev_frame >= 0:\n", "        if curr_path_inf.prev_frame > -2:\n"))
m15(TK, ("        if curr_path_inf.prev_frame >= 0:\n", "        if not curr_path_inf.prev_frame < 0:\n"), expect=0)
m15(TK, ("                if curr_corres.p[j] == CORRES_NONE:", "                if curr_corres.p[j] == PT_UNUSED:"), ("    NEXT_NONE,\n", "    NEXT_NONE,\n    PT_UNUSED,\n"))
m15(TK, ("                if curr_corres.p[j] == CORRES_NONE:", "                if curr_corres.p[j] == NEXT_NONE:"))
m15(TK, ("                if curr_corres.p[j] == CORRES_NONE:", "                if curr_corres.p[j] < 0:"), expect=0)
m15(TK, ("        while w[mm].ftnr != TR_UNUSED and len(fb.buf[2].path_info) > w[mm].ftnr:", "        while mm < len(w) and len(fb.buf[2].path_info) > w[mm].ftnr:"))
m15(TK, ("        while w[mm].ftnr != TR_UNUSED and len(fb.buf[2].path_info) > w[mm].ftnr:", "        while w[mm].ftnr != NEXT_NONE and len(fb.buf[2].path_info) > w[mm].ftnr:"))
m15(TK, ("        while w[mm].ftnr != TR_UNUSED and len(fb.buf[2].path_info) > w[mm].ftnr:", "        while 0 <= w[mm].ftnr < len(fb.buf[2].path_info):"), expect=0)
m15(TK, ("                wn[kk].ftnr != TR_UNUSED and len(", "                wn[kk].ftnr != COORD_UNUSED and len("))
m15(TK, ("            if ref_path_inf.prev_frame == PREV_NONE:", "            if ref_path_inf.prev_frame == NEXT_NONE:"))
m15(TK, ("            if ref_path_inf.prev_frame == PREV_NONE:", "            if ref_path_inf.prev_frame < 0:"), expect=0)
m15(TK, ("                    curr_path_inf.next_frame = NEXT_NONE", "                    curr_path_inf.next_frame = PREV_NONE"))
m15(TK, ("        if curr_path_inf.inlist > 0:\n            ref_path_inf = fb.buf[2].path_info[curr_path_inf.next_frame]", "        if fb.buf[2].num_parts > 0:\n            ref_path_inf = fb.buf[2].path_info[curr_path_inf.next_frame]"))
m15(TK, ("        if curr_path_inf.inlist > 0:\n            ref_path_inf = fb.buf[2].path_info[curr_path_inf.next_frame]", "        if curr_path_inf.next_frame != NEXT_NONE:\n            ref_path_inf = fb.buf[2].path_info[curr_path_inf.next_frame]"), expect=0)
m15(TK, ("            if curr_path_inf.next_frame < 0 or curr_path_inf.prev_frame != -1:", "            if curr_path_inf.next_frame == PREV_NONE or curr_path_inf.prev_frame != -1:"))
m15(TK, ("            if curr_path_inf.next_frame < 0 or curr_path_inf.prev_frame != -1:", "            if curr_path_inf.prev_frame != -1:"))
m15(TK, ("            if curr_path_inf.next_frame < 0 or curr_path_inf.prev_frame != -1:", "            if curr_path_inf.next_frame == NEXT_NONE or curr_path_inf.prev_frame != PREV_NONE:"), expect=0)
m15(TK, ("                while w[i].ftnr != TR_UNUSED:", "                while i < len(w):"))
m15(TK, ("        if all_cands[cand_idx] == TR_UNUSED:", "        if all_cands[cand_idx] == NEXT_NONE:"))
m15(TK, ("        if all_cands[cand_idx] == TR_UNUSED:", "        if all_cands[cand_idx] < 0:"), expect=0)
m15(TK, ("        if all_cands[cand_idx] == TR_UNUSED:", "        if all_cands[cand_idx] == 0:"))
m15(TK, ("            reg[cand_idx].ftnr = TR_UNUSED\n", "            reg[cand_idx].ftnr = NEXT_NONE\n"))
m15(TK, ("        if num_cands > 0:\n            _ix = cand", "        if num_cands >= 0:\n            _ix = cand"))
m15(TK, ("        if num_cands > 0:\n            _ix = cand", "        if cand_inds[cam][0] != TR_UNUSED:\n            _ix = cand"), expect=0)
m15(TK, ("        if num_cands > 0:\n            _ix = cand", "        if cand_inds[cam][0] >= 0:\n            _ix = cand"), expect=0)
m15(TK, ("        if num_cands > 0:\n            _ix = cand_inds[cam][0]  # first nearest neighbour\n            targ_pos[cam][0] = frm.targets[cam][_ix].x\n            targ_pos[cam][1] = frm.targets[cam][_ix].y\n", "        _ix = cand_inds[cam][0]\n        targ_pos[cam][0] = frm.targets[cam][_ix].x\n        targ_pos[cam][1] = frm.targets[cam][_ix].y\n"))
m15(TK, ("        if (targ_pos[cam][0] != COORD_UNUSED) and (targ_pos[cam][1] != COORD_UNUSED):", "        if True:"))
m15(TK, ("        if (targ_pos[cam][0] != COORD_UNUSED) and (targ_pos[cam][1] != COORD_UNUSED):", "        if targ_pos[cam][0] != TR_UNUSED:"))
m15(TK, ("        if (targ_pos[cam][0] != COORD_UNUSED) and (targ_pos[cam][1] != COORD_UNUSED):", "        if targ_pos[cam][0] != COORD_UNUSED:"), expect=0)
m15(TK, ("        if (targ_pos[cam][0] != COORD_UNUSED) and (targ_pos[cam][1] != COORD_UNUSED):", "        if cand_inds[cam][0] >= 0:"), expect=0)
m15(TK, ("        if cand_inds[cam][0] != TR_UNUSED:", "        if cand_inds[cam][0] != NEXT_NONE:"))
m15(TK, ("        if cand_inds[cam][0] != TR_UNUSED:", "        if cand_inds[cam][0] > TR_UNUSED:"), expect=0)
m15(TK, ("        ref_corres.p[cam] = CORRES_NONE\n\n        # We", "        ref_corres.p[cam] = NEXT_NONE\n\n        # We"))
m15(TF, ("            if tix == CORRES_NONE:", "            if tix == NEXT_NONE:"))
m15(TF, ("            if tix == CORRES_NONE:", "            if tix == PT_UNUSED:"))
m15(TF, ("            if tix == CORRES_NONE:\n                pos2d[pt] = np.nan\n            else:\n                pos2d[pt, 0] = self.targets[cam][tix].x\n                pos2d[pt, 1] = self.targets[cam][tix].y\n", "            if tix < 0:\n                pos2d[pt] = np.nan\n                continue\n            targ = self.targets[cam][tix]\n            pos2d[pt] = targ.x, targ.y\n"), expect=0)
m15(TF, ("            if tix == CORRES_NONE:\n                pos2d[pt] = np.nan\n            else:\n                pos2d[pt, 0]", "            if True:\n                pos2d[pt, 0]"))
m15(TF, ("        self.next_frame = NEXT_NONE", "        self.next_frame = PREV_NONE"))
m15(TF, ("    prev_frame: int = PREV_NONE", "    prev_frame: int = 0"))
m15(TF, ("    next_frame: int = NEXT_NONE", "    next_frame: int = PREV_NONE"))
m15(TF, ("    tnr: int = -1  #", "    tnr: int = 0  #"))
m15(TF, ("    pnr: int = PT_UNUSED", "    pnr: int = TR_UNUSED"))
m15(CO, ("                if geo_id < 0:", "                if geo_id == CORRES_NONE:"))
m15(CO, ("                if geo_id < 0:", "                if geo_id <= -1:"), expect=0)
m15(CO, ("                if geo_id < 0:\n                    continue\n", "                if geo_id >= NMAX:\n                    continue\n"))
m15(CO, ("            if con[i].p[j] < 0:", "            if con[i].p[j] == CORRES_NONE:"))
m15(CO, ("            if con[i].p[j] < 0:\n                continue\n", ""))
m15(SG, ("            if j != -999:", "            if j != -1:"))
m15(SG, ("            if j != -999:", "            if j != PT_UNUSED:"), expect=0)
m15(SG, ("            if j != -999:", "            if j >= 0:"), expect=0)
m15(SG, ("    pnr = PT_UNUSED\n    dmin", "    pnr = -1\n    dmin"))
m15(SG, ("    pnr = PT_UNUSED\n    dmin", "    pnr = 0\n    dmin"))
m15(OR, ("        if targets[cam][0] != COORD_UNUSED:\n", "        if True:\n")) 
m15(OR, ("        if targets[cam][0] == COORD_UNUSED:\n            continue\n", ""))
m15(OR, ("            if targets[pair][0] == COORD_UNUSED:\n                continue\n", ""))
m15(OR, ("            if targets[pair][0] == COORD_UNUSED:", "            if targets[cam][0] == COORD_UNUSED:"))
m15(OR, ("            if targets[pair][0] == COORD_UNUSED:", "            if targets[pair][1] == COORD_UNUSED:"), expect=0)
m15(OR, ("            if targets[pair][0] == COORD_UNUSED:\n                continue\n\n            num_used_pairs += 1\n            tmp, point = skew_midpoint(\n                vertices[cam], directs[cam], vertices[pair], directs[pair]\n            )\n            dtot += tmp\n            point_tot += point\n", "            if targets[pair][0] != COORD_UNUSED:\n                num_used_pairs += 1\n                tmp, point = skew_midpoint(\n                    vertices[cam], directs[cam], vertices[pair], directs[pair]\n                )\n                dtot += tmp\n                point_tot += point\n"), expect=0)
m15(TK, ("        while w[mm].ftnr != TR_UNUSED and len(fb.buf[2].path_info) > w[mm].ftnr:", "        while mm < len(w) - 1 and len(fb.buf[2].path_info) > w[mm].ftnr:"), expect=0)
m15(TK, ("                while w[i].ftnr != TR_UNUSED:", "                while i < len(w) - 1:"), expect=0)
m15(TK, ("                while w[i].ftnr != TR_UNUSED:", "                while True:\n                    if w[i].ftnr == TR_UNUSED:\n                        break"), expect=0)
m15(CO, ("                geo_id = corresp_buf[pt + last_count].p[cam]\n                if geo_id < 0:\n                    continue\n", "                geo_id = corresp_buf[pt + last_count].p[cam]\n                seen = geo_id >= 0\n                if not seen:\n                    continue\n"), expect=0)
m15(CO, ("            if con[i].p[j] < 0:\n                continue\n\n            p1 = corrected[j][con[i].p[j]].pnr\n            if p1 > -1 and p1 < 1202590843:\n                frm.targets[j][p1].tnr = i\n", "            q = con[i].p[j]\n            if q >= 0:\n                p1 = corrected[j][q].pnr\n                if -1 < p1 < 1202590843:\n                    frm.targets[j][p1].tnr = i\n"), expect=0)
m15(TK, ("    for cand_idx in range(MAX_CANDS):\n        # Set default value for unused foundpix objects\n        if all_cands[cand_idx] == TR_UNUSED:\n            reg[cand_idx].ftnr = TR_UNUSED\n        else:\n            # Register candidate data in the foundpix object\n            reg[cand_idx].whichcam[cam] = 1\n            reg[cand_idx].ftnr = targets[all_cands[cand_idx]].tnr\n", "    for k, c in enumerate(all_cands):\n        if c == TR_UNUSED:\n            reg[k].ftnr = TR_UNUSED\n            continue\n        reg[k].whichcam[cam] = 1\n        reg[k].ftnr = targets[c].tnr\n"), expect=0)
m15(OR, ("    for cam in range(num_cams):\n        if targets[cam][0] == COORD_UNUSED:\n            continue\n\n        for pair in range(cam + 1, num_cams):\n            if targets[pair][0] == COORD_UNUSED:\n                continue\n", "    seen = [c for c in range(num_cams) if targets[c][0] != COORD_UNUSED]\n    for k, cam in enumerate(seen):\n        for pair in seen[k + 1:]:\n"), expect=0)


def m09(fn, *eds, expect=1):
    mr("C09", fn, list(eds), expect)


EP, IM, MM, FCN = "epi.py", "imgcoord.py", "multimed.py", "find_candidate.py"
m09(CO, ("                    corrected[i1][i].x,\n                    corrected[i1][i].y,", "                    corrected[i1][i].y,\n                    corrected[i1][i].x,"))
m09(CO, ("                    corrected[i1][i].x,\n                    corrected[i1][i].y,", "                    frm.targets[i1][corrected[i1][i].pnr].x,\n                    frm.targets[i1][corrected[i1][i].pnr].y,"))
m09(CO, ("                    xa12,\n                    ya12,\n                    xb12,\n                    yb12,\n                    frm", "                    xa12,\n                    xb12,\n                    ya12,\n                    yb12,\n                    frm"))
m09(CO, ("                    xa12,\n                    ya12,\n                    xb12,\n                    yb12,\n                    frm", "                    xb12,\n                    yb12,\n                    xa12,\n                    ya12,\n                    frm"), expect=0)
m09(CO, ("                    clique_targs[cam, pt, 0] = targ.x\n                    clique_targs[cam, pt, 1] = targ.y\n", "                    clique_targs[cam, pt, 0] = targ.y\n                    clique_targs[cam, pt, 1] = targ.x\n"))
m09(CO, ("                    clique_targs[cam, pt, 0] = targ.x\n                    clique_targs[cam, pt, 1] = targ.y\n", "                    clique_targs[cam, pt] = targ.x, targ.y\n"), expect=0)
m09(CO, ("                    clique_targs[cam, pt, 0] = targ.x\n                    clique_targs[cam, pt, 1] = targ.y\n", "                    clique_targs[cam, pt] = targ.y, targ.x\n"))
m09(CO, ("            clique_targs[0, pt, 0] = targ.x\n            clique_targs[0, pt, 1] = targ.y\n", "            clique_targs[0, pt, 0] = corrected[pt].x\n            clique_targs[0, pt, 1] = targ.y\n"))
m09(EP, ("    x, y = dist_to_flat(x, y, origin_cam, 0.00001)\n", ""))
m09(EP, ("pixel_to_metric(image_point[0], image_point[1], cparam)\n    x, y = dist_to_flat(x, y, origin_cam, 0.00001)", "pixel_to_metric(image_point[0], image_point[1], cparam)\n    y, x = dist_to_flat(x, y, origin_cam, 0.00001)"))
m09(EP, ("        x, y = img_coord(pos, project_cam, cparam.mm)\n", "        x, y = flat_image_coord(pos, project_cam, cparam.mm)\n"))
m09(EP, ("        x, y = img_coord(pos, project_cam, cparam.mm)\n        line_points[pt_ix, 0], line_points[pt_ix, 1] = metric_to_pixel(x, y, cparam)", "        line_points[pt_ix, 0], line_points[pt_ix, 1] = img_coord(pos, project_cam, cparam.mm)"), expect=0)   # not decided: the array's kind is only documented
m09(EP, ("        x, y = img_coord(pos, project_cam, cparam.mm)\n        line_points[pt_ix, 0], line_points[pt_ix, 1] = metric_to_pixel(x, y, cparam)", "        x, y = img_coord(pos, project_cam, cparam.mm)\n        line_points[pt_ix, 1], line_points[pt_ix, 0] = metric_to_pixel(x, y, cparam)"))
m09(EP, ("    pos, v = ray_tracing(xl, yl, cal1, mmp)\n\n    # calculate min and max", "    xl, yl = flat_to_dist(xl, yl, cal1)\n    pos, v = ray_tracing(xl, yl, cal1, mmp)\n\n    # calculate min and max"), ("import ", "from .trafo import flat_to_dist\nimport "))
m09(IM, ("    x, y = flat_to_dist(x, y, cal)\n", "    x, y = dist_to_flat(x, y, cal)\n"), ("from .trafo import flat_to_dist", "from .trafo import dist_to_flat, flat_to_dist"))
m09(IM, ("    x, y = flat_to_dist(x, y, cal)\n", ""))
m09(IM, ("    x, y = flat_to_dist(x, y, cal)\n", "    y, x = flat_to_dist(x, y, cal)\n"))
m09(IM, ("    x, y = flat_to_dist(x, y, cal)\n", "    y, x = flat_to_dist(y, x, cal)\n"))
m09(MM, ("            x, y = dist_to_flat(x, y, cal)\n", ""))
m09(MM, ("                x, y = dist_to_flat(x, y, cal[i_cam])\n", ""))
m09(MM, ("                x, y = pixel_to_metric(xc[i], yc[j], cpar)\n\n                x, y = dist_to_flat(x, y, cal[i_cam])\n", "                u, v = pixel_to_metric(xc[i], yc[j], cpar)\n                x, y = dist_to_flat(v, u, cal[i_cam])\n"))
m09(MM, ("            x, y = pixel_to_metric(xc[i], yc[j], cpar)\n            x, y = dist_to_flat(x, y, cal)\n            pos, a", "            pos, a"), ("            pos, a = ray_tracing(x, y, cal, cpar.mm)", "            pos, a = ray_tracing(*dist_to_flat(*pixel_to_metric(xc[i], yc[j], cpar), cal), cal, cpar.mm)"), expect=0)
m09(OR, ("            vertices[cam], directs[cam] = ray_tracing(\n                targets[cam][0], targets[cam][1],", "            vertices[cam], directs[cam] = ray_tracing(\n                targets[cam][1], targets[cam][0],"))
m09(OR, ("            xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)\n", "            xc, yc = pix[i].x, pix[i].y\n"))
m09(OR, ("            xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)\n", "            xc, yc = pixel_to_metric(pix[i].y, pix[i].x, cpar)\n"))
m09(OR, ("            y[n] = xc - xp\n            y[n + 1] = yc - yp\n            n += 2\n", "            y[n] = xc - yp\n            y[n + 1] = yc - xp\n            n += 2\n"))
m09(OR, ("            xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)\n            pos = fix[i]", "            xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)\n            xc, yc = dist_to_flat(xc, yc, cal)\n            pos = fix[i]"), ("import ", "from .trafo import dist_to_flat\nimport "))
m09(SG, ("        calib_point = metric_to_pixel(xp, yp, cpar)\n", "        calib_point = xp, yp\n"))
m09(SG, ("nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)", "nearest_neighbour_pix(pix, calib_point[1], calib_point[0], eps)"))
m09(SG, ("            calib_point[0] < cpar.imx + eps)\n            and (calib_point[1] < cpar.imy + eps)", "            calib_point[0] < cpar.imy + eps)\n            and (calib_point[1] < cpar.imx + eps)")) if False else m09(SG, ("(calib_point[0] < cpar.imx + eps)", "(calib_point[0] < cpar.imy + eps)"))
m09(SG, ("        if ymin < t.y < ymax and xmin < t.x < xmax:", "        if ymin < t.x < ymax and xmin < t.y < xmax:"))
m09(SG, ("            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)\n", "            d = np.sqrt((x - t.y) ** 2 + (y - t.x) ** 2)\n"))
m09(SG, ("            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)\n", "            d = np.hypot(t.y - y, t.x - x)\n"), expect=0)
m09(TK, ("    x, y = metric_to_pixel(x, y, cpar)\n", ""))
m09(TK, ("    x, y = img_coord(point, cal, cpar.mm)\n", "    x, y = flat_image_coord(point, cal, cpar.mm)\n"), ("import img_coord", "import flat_image_coord, img_coord"))
m09(TK, ("    return np.array([x, y])\n", "    return np.array([y, x])\n"))
m09(TK, ("            center_proj[cam][0],\n            center_proj[cam][1],", "            center_proj[cam][1],\n            center_proj[cam][0],"))
m09(TK, ("            pixel[0],\n            pixel[1],", "            pixel[1],\n            pixel[0],"))
m09(TK, ("            targ_pos[cam][0] = frm.targets[cam][_ix].x\n            targ_pos[cam][1] = frm.targets[cam][_ix].y\n", "            targ_pos[cam][0] = frm.targets[cam][_ix].y\n            targ_pos[cam][1] = frm.targets[cam][_ix].x\n"))
m09(TK, ("            x, y = pixel_to_metric(targ_pos[cam][0], targ_pos[cam][1], run.cpar)\n", "            x, y = targ_pos[cam]\n"))
m09(TK, ("            corner = point_to_pixel(quader[pt], cal[i], cpar)\n", "            corner = img_coord(quader[pt], cal[i], cpar.mm)\n"))
m09(TK, ("            if corner[0] < xl[i]:\n                xl[i] = corner[0]\n", "            if corner[1] < xl[i]:\n                xl[i] = corner[1]\n"))
m09(TK, ("                if xmin < next_frame[j].x < xmax and ymin < next_frame[j].y < ymax:", "                if xmin < next_frame[j].y < xmax and ymin < next_frame[j].x < ymax:"))
m09(TK, ("                        (cent_x - next_frame[j].x) ** 2\n", "                        (cent_x - next_frame[j].y) ** 2\n"))
m09(TF, ("        x, y = pixel_to_metric(targ.x, targ.y, cpar)\n", "        x, y = targ.x, targ.y\n"))
m09(TF, ("        matched_coords[tnum].x, matched_coords[tnum].y = dist_to_flat(x, y, cal, tol)", "        matched_coords[tnum].x, matched_coords[tnum].y = x, y"))
m09(TF, ("        matched_coords[tnum].x, matched_coords[tnum].y = dist_to_flat(x, y, cal, tol)", "        matched_coords[tnum].y, matched_coords[tnum].x = dist_to_flat(x, y, cal, tol)"))
m09(TF, ("        matched_coords[tnum].x, matched_coords[tnum].y = dist_to_flat(x, y, cal, tol)", "        flat = dist_to_flat(x, y, cal, tol)\n        matched_coords[tnum].x = flat[0]\n        matched_coords[tnum].y = flat[1]"), expect=0)
m09(TF, ("        pos[pt, 0] = mc.x\n        pos[pt, 1] = mc.y\n", "        pos[pt, 0] = mc.y\n        pos[pt, 1] = mc.x\n"))
m09(TF, ("                pos2d[pt, 0] = self.targets[cam][tix].x\n                pos2d[pt, 1] = self.targets[cam][tix].y\n", "                pos2d[pt, 0] = self.targets[cam][tix].y\n                pos2d[pt, 1] = self.targets[cam][tix].x\n"))
m09("trafo.py", ("    flat_x += cal.int_par.xh\n    flat_y += cal.int_par.yh\n", "    flat_x += cal.int_par.yh\n    flat_y += cal.int_par.xh\n"), expect=0)   # the formula: C04
m09("trafo.py", ("    dist_x, dist_y = distort_brown_affine(flat_x, flat_y, cal.added_par)\n", "    dist_x, dist_y = distort_brown_affine(flat_y, flat_x, cal.added_par)\n"))
m09("trafo.py", ("    flat_x += cal.int_par.xh\n    flat_y += cal.int_par.yh\n", ""))
m09("trafo.py", ("    flat_x -= cal.int_par.xh\n    flat_y -= cal.int_par.yh\n", ""))
m09("trafo.py", ("    flat_x -= cal.int_par.xh\n    flat_y -= cal.int_par.yh\n    return flat_x, flat_y", "    return flat_x - cal.int_par.xh, flat_y - cal.int_par.yh"), expect=0)
m09("trafo.py", ("    flat_x -= cal.int_par.xh\n    flat_y -= cal.int_par.yh\n    return flat_x, flat_y", "    flat_x -= cal.int_par.xh\n    flat_y -= cal.int_par.yh\n    return flat_y, flat_x"))
m09(FCN, ("    xmin, ymin = dist_to_flat(xmin, ymin, cal)\n", "    xmin, ymin = dist_to_flat(ymin, xmin, cal)\n"))
m09(FCN, ("    xmin, ymin = dist_to_flat(xmin, ymin, cal)\n    xmax, ymax = dist_to_flat(xmax, ymax, cal)\n", "    ymin, xmin = dist_to_flat(xmin, ymin, cal)\n    ymax, xmax = dist_to_flat(xmax, ymax, cal)\n"))
m09(FCN, ("    xmin, ymin = dist_to_flat(xmin, ymin, cal)\n    xmax, ymax = dist_to_flat(xmax, ymax, cal)\n", ""))
m09(TK, ("    x, y = img_coord(point, cal, cpar.mm)\n", "    x, y = project(point, cal, cpar)\n"), ("def point_to_pixel(", "def project(point, cal, cpar):\n    return img_coord(point, cal, cpar.mm)\n\n\ndef point_to_pixel("), expect=0)
m09(TK, ("            x, y = pixel_to_metric(targ_pos[cam][0], targ_pos[cam][1], run.cpar)\n\n            # Apply additional transformations\n            targ_pos[cam][0], targ_pos[cam][1] = dist_to_flat(\n                x, y, run.cal[cam], run.flatten_tol\n            )\n", "            targ_pos[cam] = flatten(targ_pos[cam], run, cam)\n"), ("def assess_new_position(", "def flatten(p, run, cam):\n    x, y = pixel_to_metric(p[0], p[1], run.cpar)\n    return dist_to_flat(x, y, run.cal[cam], run.flatten_tol)\n\n\ndef assess_new_position("), expect=0)
m09(OR, ("            y[n] = xc - xp\n            y[n + 1] = yc - yp\n            n += 2\n", "            y[n : n + 2] = xc - xp, yc - yp\n            n += 2\n"), expect=0)

# C03: the matrix in use
UPD = "            # Projected 2D position on sensor of corresponding known point\n            cal.update_rotation_matrix()\n"
mr("C03", OR, [(UPD, "")], 1)
mr("C03", OR, [(UPD, ""), ("        for i in range(nfix):\n            if not is_used_for", "        cal.update_rotation_matrix()\n        for i in range(nfix):\n            if not is_used_for")])
mr("C03", OR, [(UPD, ""), ("        cal.ext_par.kappa += beta[5]\n", "        cal.ext_par.kappa += beta[5]\n        cal.update_rotation_matrix()\n")])
mr("C03", OR, [(UPD, ""), ("        cal.ext_par.kappa += beta[5]\n", "        cal.ext_par.kappa += beta[5]\n        if not stopflag:\n            cal.update_rotation_matrix()\n")])
mr("C03", OR, [(UPD, ""), ("        itnum += 1\n        n = 0\n\n        # backup", "        itnum += 1\n        n = 0\n        if itnum > 1:\n            cal.update_rotation_matrix()\n\n        # backup")])
mr("C03", OR, [("            pos = fix[i]\n            cal.update_rotation_matrix()\n", "            pos = fix[i]\n")], 1)
mr("C03", OR, [("            pos = fix[i]\n            cal.update_rotation_matrix()\n", "            pos = fix[i]\n            if i == 0:\n                cal.update_rotation_matrix()\n")])
mr("C03", OR, [("            cal.increment_attribute(var[pd], steps[pd])\n" if False else "        if pd > 2:\n            cal.update_rotation_matrix()\n", "")])
mr("C03", OR, [("        cal.increment_attribute(var[pd], steps[pd])\n", "        cal.ext_par[var[pd]] += steps[pd]\n"), ("        if pd > 2:\n            cal.update_rotation_matrix()\n", "")], 1)
mr("C03", OR, [("        cal.increment_attribute(var[pd], steps[pd])\n", "        cal.ext_par[var[pd]] += steps[pd]\n")])
mr("C16", "sortgrid.py", [("    sorted_pix = [Target() for _ in range(nfix)]\n", "    empty = Target()\n    sorted_pix = [replace(empty) for _ in range(nfix)]\n")])

# C34: the search in the images (the first list breaks it, the second does not)
mr("C34", "track.py", [('    if xmin < 0:\n        xmin = 0\n', '')], 1)
mr("C34", "track.py", [('    if ymax > cpar.imy:\n        ymax = cpar.imy\n', '    if ymax > cpar.imx:\n        ymax = cpar.imx\n')], 1)
mr("C34", "track.py", [('    if cent_x >= 0 and cent_x <= cpar.imx and cent_y >= 0 and cent_y <= cpar.imy:', '    if cent_x > 0 and cent_x < cpar.imx and cent_y > 0 and cent_y < cpar.imy:')], 1)
mr("C34", "track.py", [('            if next_frame[j].tnr != -1:\n                if next_frame[j].y > ymax:\n                    break', '            if next_frame[j].tnr != -1:\n                if next_frame[j].y > ymin:\n                    break')], 1)
mr("C34", "track.py", [('            if next_frame[j].tnr != -1:', '            if next_frame[j].tnr == -1:')], 1)
mr("C34", "track.py", [('                        p4, p3, p2 = p3, p2, j\n                        d4, d3, d2 = d3, d2, d', '                        p4, p3, p2 = p3, p2, j\n                        d3, d2 = d2, d')], 1)
mr("C34", "track.py", [('                        p4, p3 = p3, j\n                        d4, d3 = d3, d', '                        p3 = j\n                        d3 = d')], 1)
mr("C34", "track.py", [('                        p4 = j\n                        d4 = d', '                        p4 = j')], 1)
mr("C34", "track.py", [('                    if d < dmin:\n                        dmin = d\n                        p[0] = j', '                    if d < dmin:\n                        p[0] = j')], 1)
mr("C34", "track.py", [('            if next_frame[j].tnr == TR_UNUSED:\n                if next_frame[j].y > ymax:\n                    break  # finish search\n', '            if next_frame[j].y > ymax:\n                break  # finish search\n            if next_frame[j].tnr != TR_UNUSED:\n')], 1)
mr("C34", "track.py", [('    xmin = max(xmin, 0.0)\n    xmax = min(xmax, cpar.imx)', '    xmin = max(xmin, 0.0)\n    xmax = min(xmax, cpar.imy)')], 1)
mr("C34", "track.py", [('        j0 -= 12 if j0 >= 12 else j0  # due to trunc', '        j0 -= 12 if j0 >= 12 else 0  # due to trunc')], 1)
mr("C34", "track.py", [('        j0 -= 12\n        if j0 < 0:\n            j0 = 0', '        j0 -= 12\n        if j0 < 0:\n            j0 = 1')], 1)
mr("C34", "track.py", [('        xr[i] = 0\n        xl[i] = cpar.imx', '        xr[i] = 0\n        xl[i] = 0')], 1)
mr("C34", "track.py", [('            if corner[0] > xr[i]:', '            elif corner[0] > xr[i]:')], 1)
mr("C34", "track.py", [('            if pt & (1 << dim):', '            if pt & (1 + dim):')], 1)
mr("C34", "track.py", [('            if pt & (1 << dim):', '            if pt & (2 << dim):')], 1)
mr("C34", "track.py", [('    for pt in range(8):\n        quader[pt] = point.copy()', '    for pt in range(7):\n        quader[pt] = point.copy()')], 1)
mr("C34", "track.py", [('        for pt in range(8):\n            corner', '        for pt in range(1, 8):\n            corner')], 1)
mr("C34", "track.py", [('        if yd[i] > cpar.imy:\n            yd[i] = cpar.imy\n', '        if yd[i] > cpar.imx:\n            yd[i] = cpar.imx\n')], 1)
mr("C34", "track.py", [('        yd[i] = yd[i] - center[1]\n        yu[i] = center[1] - yu[i]', '        yd[i] = yd[i] - center[1]\n        yu[i] = yu[i] - center[1]')], 1)
mr("C34", "track.py", [('    maxes = np.array([tpar.dvxmax, tpar.dvymax, tpar.dvzmax])', '    maxes = np.array([tpar.dvxmax, tpar.dvzmax, tpar.dvymax])')], 1)
mr("C34", "track.py", [('                quader[pt][dim] += maxes[dim]\n            else:\n                quader[pt][dim] += mins[dim]', '                quader[pt][dim] += maxes[dim]\n            else:\n                quader[pt][dim] -= maxes[dim]')], 1)
mr("C34", "track.py", [('            reg[cand_idx].whichcam[cam] = 1\n            reg[cand_idx].ftnr = targets[all_cands[cand_idx]].tnr', '            reg[cand_idx].whichcam[cam] = 1\n            reg[cand_idx].ftnr = all_cands[cand_idx]')], 1)
mr("C34", "track.py", [('            reg[cand_idx].whichcam[cam] = 1\n', '            reg[cand_idx].whichcam[cand_idx] = 1\n')], 1)
mr("C34", "track.py", [('        if all_cands[cand_idx] == TR_UNUSED:', '        if all_cands[cand_idx] <= 0:')], 1)
mr("C34", "track.py", [('            reg[cand_idx].ftnr = TR_UNUSED\n', '            reg[cand_idx].ftnr = 0\n')], 1)
mr("C34", "track.py", [('        targets, num_targets, cent_x, cent_y, dl, dr, du, dd, cpar\n    )\n\n    for cand_idx', '        targets, num_targets, cent_x, cent_y, dr, dl, du, dd, cpar\n    )\n\n    for cand_idx')], 1)
mr("C34", "track.py", [('    for cand_idx in range(MAX_CANDS):\n        # Set', '    for cand_idx in range(MAX_CANDS - 1):\n        # Set')], 1)
mr("C34", "track.py", [('    dmin = POS_INF\n    xmin, xmax', '    dmin = 50.0\n    xmin, xmax')], 1)
mr("C34", "track.py", [('    dmin = 1e20\n', '    dmin = 1e2\n')], 1)
mr("C34", "track.py", [('        center = point_to_pixel(point, cal[i], cpar)', '        center = point_to_pixel(quader[0], cal[i], cpar)')], 1)
mr("C34", "track.py", [('    xmin, xmax, ymin, ymax = cent_x - dl, cent_x + dr, cent_y - du, cent_y + dd\n\n    if', '    xmin, xmax, ymin, ymax = cent_x - dl, cent_x + dr, cent_y - dd, cent_y + du\n\n    if')], 1)
mr("C34", "track.py", [('                    elif d1 < d < d2:', '                    elif d1 < d < d3:')], 1)
mr("C34", "track.py", [('        if p[0] != -1:\n            counter += 1', '        if p[0] > 0:\n            counter += 1')], 1)
mr("C34", "track.py", [('                if xmin < next_frame[j].x < xmax and ymin < next_frame[j].y < ymax:\n                    d = np.sqrt(\n                        (cent_x - next_frame[j].x) ** 2\n                        + (cent_y - next_frame[j].y) ** 2\n                    )\n                    if d', '                if xmin < next_frame[j].x < xmax and ymin < next_frame[j].y < ymax:\n                    d = np.sqrt(\n                        (cent_x - next_frame[j].x) ** 2\n                        + (cent_y - next_frame[j].x) ** 2\n                    )\n                    if d')], 1)
mr("C34", "track.py", [('    if xmin < 0:\n        xmin = 0\n    if xmax > cpar.imx:\n        xmax = cpar.imx\n    if ymin < 0:\n        ymin = 0\n    if ymax > cpar.imy:\n        ymax = cpar.imy\n\n    if cent_x >= 0 and cent_x <= cpar.imx and cent_y >= 0 and cent_y <= cpar.imy:\n', '    xmin, ymin = max(xmin, 0), max(ymin, 0)\n    xmax = cpar.imx if xmax > cpar.imx else xmax\n    ymax = min(cpar.imy, ymax)\n\n    if not (0 <= cent_x <= cpar.imx):\n        return p\n    if 0 <= cent_y <= cpar.imy:\n')])
mr("C34", "track.py", [('                if xmin < next_frame[j].x < xmax and ymin < next_frame[j].y < ymax:\n                    d = np.sqrt(\n                        (cent_x - next_frame[j].x) ** 2\n                        + (cent_y - next_frame[j].y) ** 2\n                    )\n\n                    if d < dmin:\n                        dmin = d\n\n                    if d < d1:', '                tg = next_frame[j]\n                if tg.x > xmin and tg.x < xmax and tg.y > ymin and tg.y < ymax:\n                    d = np.hypot(cent_x - tg.x, cent_y - tg.y)\n                    if d < d1:')])
mr("C34", "track.py", [('            if next_frame[j].tnr != -1:\n                if next_frame[j].y > ymax:\n                    break\n', '            if next_frame[j].y > ymax:\n                break\n            if next_frame[j].tnr != TR_UNUSED:\n')])
mr("C34", "track.py", [('        for j in range(j0, num_targets):\n            if next_frame[j].tnr != -1:\n                if next_frame[j].y > ymax:\n                    break\n', '        for j, tg in enumerate(next_frame[:num_targets]):\n            if tg.tnr != -1:\n                if tg.y > ymax:\n                    break\n')])
mr("C34", "track.py", [('    for cand_idx in range(MAX_CANDS):\n        # Set default value for unused foundpix objects\n        if all_cands[cand_idx] == TR_UNUSED:\n            reg[cand_idx].ftnr = TR_UNUSED\n        else:\n            # Register candidate data in the foundpix object\n            reg[cand_idx].whichcam[cam] = 1\n            reg[cand_idx].ftnr = targets[all_cands[cand_idx]].tnr\n', '    for k, c in enumerate(all_cands):\n        if c != TR_UNUSED:\n            reg[k].whichcam[cam] = 1\n        reg[k].ftnr = TR_UNUSED if c == TR_UNUSED else targets[c].tnr\n')])
mr("C34", "track.py", [('    quader = np.zeros((8, 3))\n    xr =', '    import itertools\n    quader = np.array([point + np.array(d) for d in itertools.product(*zip(mins, maxes))])\n    xr ='), ('    for pt in range(8):\n        quader[pt] = point.copy()\n        # print(f" pt {pt} {quader[pt]}")\n        for dim in range(3):\n            if pt & (1 << dim):\n                quader[pt][dim] += maxes[dim]\n            else:\n                quader[pt][dim] += mins[dim]\n', '')])
mr("C34", "track.py", [('            if corner[0] < xl[i]:\n                xl[i] = corner[0]\n            if corner[1] < yu[i]:\n                yu[i] = corner[1]\n            if corner[0] > xr[i]:\n                xr[i] = corner[0]\n            if corner[1] > yd[i]:\n                yd[i] = corner[1]\n', '            xl[i] = min(xl[i], corner[0])\n            yu[i] = min(yu[i], corner[1])\n            xr[i] = max(xr[i], corner[0])\n            yd[i] = max(yd[i], corner[1])\n')])
mr("C34", "track.py", [('        for pt in range(8):\n            corner = point_to_pixel(quader[pt], cal[i], cpar)\n            # print(" corner", corner[0], corner[1])\n\n            if corner[0] < xl[i]:\n                xl[i] = corner[0]\n            if corner[1] < yu[i]:\n                yu[i] = corner[1]\n            if corner[0] > xr[i]:\n                xr[i] = corner[0]\n            if corner[1] > yd[i]:\n                yd[i] = corner[1]\n\n        if xl[i] < 0:\n            xl[i] = 0\n        if yu[i] < 0:\n            yu[i] = 0\n        if xr[i] > cpar.imx:\n            xr[i] = cpar.imx\n        if yd[i] > cpar.imy:\n            yd[i] = cpar.imy\n', '        corners = np.array([point_to_pixel(q, cal[i], cpar) for q in quader])\n        xl[i], yu[i] = np.minimum(np.array([cpar.imx, cpar.imy]), corners.min(axis=0))\n        xr[i], yd[i] = np.maximum(np.array([0, 0]), corners.max(axis=0))\n        xl[i] = max(xl[i], 0)\n        yu[i] = max(yu[i], 0)\n        xr[i] = min(xr[i], cpar.imx)\n        yd[i] = min(yd[i], cpar.imy)\n')])
mr("C34", "track.py", [('    dmin = POS_INF\n    xmin, xmax', '    dmin = POS_INF ** 2\n    xmin, xmax'), ('                    d = np.sqrt(\n                        (cent_x - next_frame[j].x) ** 2\n                        + (cent_y - next_frame[j].y) ** 2\n                    )\n                    if d < dmin:\n                        dmin = d\n                        p[0] = j', '                    dx = next_frame[j].x - cent_x\n                    dy = next_frame[j].y - cent_y\n                    if dx * dx + dy * dy < dmin:\n                        dmin = dx * dx + dy * dy\n                        p[0] = j')])
mr("C34", "track.py", [('        j0, dj = num_targets // 2, num_targets // 4\n        while dj > 1:\n            j0 += dj if next_frame[j0].y < ymin else -dj\n            dj //= 2\n\n        j0 -= 12 if j0 >= 12 else j0  # due to trunc\n        for j in range(j0, num_targets):\n            if next_frame[j].tnr == TR_UNUSED:\n                if next_frame[j].y > ymax:\n                    break  # finish search\n', '        for j in range(num_targets):\n            if next_frame[j].y > ymax:\n                break  # finish search\n            if next_frame[j].tnr == TR_UNUSED:\n')])
