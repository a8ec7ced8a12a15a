"""edits that keep the behaviour, independent of any rule; every rule has to stay quiet on each (tools/refrun.py)"""
R = []
TK, FC, CO, SG, SO = "track.py", "find_candidate.py", "correspondences.py", "segmentation.py", "sortgrid.py"


def r(fn, *edits):
    R.append((fn, edits))


ACC = "def accepted(acc, angle, tpar):\n    \"\"\"Tell whether acceleration and angle are small enough.\"\"\"\n    return (acc < tpar.dacc and angle < tpar.dangle) or acc < tpar.dacc / 10\n\n\n"
BACKIF = '''                        if (
                            acc < tpar.dacc
                            and angle < tpar.dangle
                            or acc < tpar.dacc / 10
                        ):
                            dl = (
                                vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[0], X[1])
                            ) / 2  # type: ignore
                            quali = w[i].freq
'''
r(TK, (BACKIF, BACKIF.replace('''if (
                            acc < tpar.dacc
                            and angle < tpar.dangle
                            or acc < tpar.dacc / 10
                        ):''', "if accepted(acc, angle, tpar):")), ("def trackback_c(", ACC + "def trackback_c("))
r(TK, ("                i = 0\n                while w[i].ftnr != TR_UNUSED:\n                    ref_path_inf = fb.buf[2].path_info[w[i].ftnr]\n", "                i = -1\n                while w[i + 1].ftnr != TR_UNUSED:\n                    i += 1\n                    ref_path_inf = fb.buf[2].path_info[w[i].ftnr]\n"),
  ("                            curr_path_inf.register_link_candidate(rr, w[i].ftnr)\n\n                    i += 1\n", "                            curr_path_inf.register_link_candidate(rr, w[i].ftnr)\n"))
VOL = '''                        if (
                            vpar.x_lay[0] < X[3][0] < vpar.x_lay[1]
                            and run_info.ymin < X[3][1] < run_info.ymax
                            and vpar.z_min_lay[0] < X[3][2] < vpar.z_max_lay[1]
                        ):
                            in_volume = 1

                        diff_pos = vec_subt(X[1], X[3])
                        if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):
'''
INV = '''def inside_volume(pos, vpar, run_info):
    """Tell whether a position lies in the observed volume."""
    return (
        vpar.x_lay[0] < pos[0] < vpar.x_lay[1]
        and run_info.ymin < pos[1] < run_info.ymax
        and vpar.z_min_lay[0] < pos[2] < vpar.z_max_lay[1]
    )


'''
r(TK, (VOL, "                        in_volume = 1 if inside_volume(X[3], vpar, run_info) else 0\n\n                        diff_pos = vec_subt(X[1], X[3])\n                        if in_volume and pos3d_in_bounds(diff_pos, tpar):\n"), ("def trackback_c(", INV + "def trackback_c("))
r(TK, (VOL, "                        in_volume = inside_volume(X[3], vpar, run_info)\n                        displacement = X[1] - X[3]\n                        if in_volume and pos3d_in_bounds(displacement, tpar):\n"), ("def trackback_c(", INV + "def trackback_c("))
r(TK, ("            if curr_path_inf.next_frame < 0 or curr_path_inf.prev_frame != -1:\n                continue\n", "            if not (curr_path_inf.next_frame >= 0 and curr_path_inf.prev_frame == PREV_NONE):\n                continue\n"))
r(TK, ("            # 3D-position of current particle\n            X[1] = vec_copy(curr_path_inf.x)\n\n            # use information from previous to locate new search position\n            # and to calculate values for search area\n            ref_path_inf = fb.buf[0].path_info[curr_path_inf.next_frame]\n            X[0] = vec_copy(ref_path_inf.x)\n            X[2] = search_volume_center_moving(ref_path_inf.x, curr_path_inf.x)\n",
  "            before = fb.buf[0].path_info[curr_path_inf.next_frame]\n            X[0] = before.x\n            X[1] = curr_path_inf.x\n            X[2] = search_volume_center_moving(X[0], X[1])\n"))
r(TK, ("                    curr_path_inf.finaldecis = curr_path_inf.decis[0]\n                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n                    fb.buf[2].path_info[curr_path_inf.prev_frame].next_frame = h\n                    num_added += 1\n\n                if (", "                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n                    curr_path_inf.finaldecis = curr_path_inf.decis[0]\n                    ref_path_inf.next_frame = h\n                    num_added += 1\n\n                elif ("))
r(TK, ("                    for j in range(3):\n                        X[5][j] = 0.5 * (5.0 * X[3][j] - 4.0 * X[1][j] + X[0][j])\n", "                    X[5] = 0.5 * (5.0 * X[3] - 4.0 * X[1] + X[0])\n"))
r(TK, ("        if step > seq_par.first + 2:\n            fb.read_frame_at_end(step - 3, read_links=True)\n", "        if step - 3 >= seq_par.first:\n            fb.read_frame_at_end(step - 3, True)\n"))
r(TK, ("    for step in range(seq_par.last, seq_par.last - 4, -1):\n        fb.read_frame_at_end(step, read_links=True)\n        fb.fb_next()\n", "    for k in range(4):\n        fb.read_frame_at_end(seq_par.last - k, read_links=True)\n        fb.fb_next()\n"))
r(TK, ("        fb.fb_next()\n        if not fb.write_frame_from_start(step):\n            raise IOError(\"Could not write frame to disk\")\n\n        if step > ", "        fb.fb_next()\n        written = fb.write_frame_from_start(step)\n        if not written:\n            raise IOError(\"Could not write frame to disk\")\n\n        if step > "))
r(TK, ("    if step < run_info.seq_par.last - 2:\n        fb.read_frame_at_end(step + 3, False)\n    else:\n", "    following = step + 3\n    if following <= run_info.seq_par.last:\n        fb.read_frame_at_end(following, False)\n    else:\n"))
r(TK, ("            if ref_path_inf.prev_frame == PREV_NONE:\n                # best choice wasn't used yet, so link is created\n                ref_path_inf.prev_frame = h\n", "            if ref_path_inf.prev_frame == PREV_NONE:\n                ref_path_inf.prev_frame = h\n"),
  ("                if (\n                    fb.buf[1].path_info[ref_path_inf.prev_frame].finaldecis\n                    > curr_path_inf.finaldecis\n                ):\n                    # remove link with prev\n                    fb.buf[1].path_info[ref_path_inf.prev_frame].next_frame = NEXT_NONE\n                    ref_path_inf.prev_frame = h\n                else:\n                    curr_path_inf.next_frame = NEXT_NONE\n",
   "                rival = fb.buf[1].path_info[ref_path_inf.prev_frame]\n                if rival.finaldecis <= curr_path_inf.finaldecis:\n                    curr_path_inf.next_frame = NEXT_NONE\n                else:\n                    rival.next_frame = NEXT_NONE\n                    ref_path_inf.prev_frame = h\n"))
r(TK, ("        if curr_path_inf.next_frame != NEXT_NONE:\n            count1 += 1\n\n    # end of creation", "        count1 += 1 if curr_path_inf.next_frame != NEXT_NONE else 0\n\n    # end of creation"))
r(TK, ("    for h in range(fb.buf[1].num_parts):\n        curr_path_inf = fb.buf[1].path_info[h]\n\n        if curr_path_inf.inlist > 0:\n            ref_path_inf = fb.buf[2].path_info[curr_path_inf.next_frame]\n", "    current, following = fb.buf[1], fb.buf[2]\n    for h in range(current.num_parts):\n        curr_path_inf = current.path_info[h]\n\n        if curr_path_inf.inlist > 0:\n            ref_path_inf = following.path_info[curr_path_inf.next_frame]\n"))
r(TK, ("        if curr_path_inf.inlist > 0:\n            curr_path_inf.decis, curr_path_inf.linkdecis = sort(\n                curr_path_inf.inlist, curr_path_inf.decis, curr_path_inf.linkdecis\n            )\n            curr_path_inf.finaldecis", "        if curr_path_inf.inlist > 0:\n            sort(\n                curr_path_inf.inlist, curr_path_inf.decis, curr_path_inf.linkdecis\n            )\n            curr_path_inf.finaldecis"))
r(TK, ("    sorted_pairs = sorted(zip(a[:n], b[:n]))\n    a[:n], b[:n] = zip(*sorted_pairs)\n", "    pairs = list(zip(a[:n], b[:n]))\n    pairs.sort()\n    for i, (quality, target) in enumerate(pairs):\n        a[i] = quality\n        b[i] = target\n"))
r(TK, ("    sorted_pairs = sorted(zip(a[:n], b[:n]))\n    a[:n], b[:n] = zip(*sorted_pairs)\n", "    order = sorted(range(n), key=lambda i: (a[i], b[i]))\n    a[:n], b[:n] = [a[i] for i in order], [b[i] for i in order]\n"))
QH = '''def link_quality(dl, acc, angle, run_info, tpar, weight):
    """Rate a link."""
    return (dl / run_info.lmax + acc / tpar.dacc + angle / tpar.dangle) / weight


'''
r(TK, ("                        rr = (\n                            dl / run_info.lmax + acc / tpar.dacc + angle / tpar.dangle\n                        ) / quali\n\n                        # print(f\"prev exists", "                        rr = link_quality(dl, acc, angle, run_info, tpar, quali)\n\n                        # print(f\"prev exists"), ("def trackcorr_c_loop(", QH + "def trackcorr_c_loop("))
r(TK, ("                            acc0 = acc1\n                            angle0 = angle1\n\n                        acc = (acc0 + acc1) / 2\n                        angle = (angle0 + angle1) / 2\n", "                            angle0, acc0 = angle1, acc1\n\n                        acc = 0.5 * (acc0 + acc1)\n                        angle = 0.5 * (angle0 + angle1)\n"))
r(TK, ("                if (\n                    vpar.x_lay[0] < X[4][0]\n                    and X[4][0] < vpar.x_lay[1]\n                    and run_info.ymin < X[4][1]\n                    and X[4][1] < run_info.ymax\n                    and vpar.z_min_lay[0] < X[4][2]\n                    and X[4][2] < vpar.z_max_lay[1]\n                ):\n                    in_volume = 1\n", "                px, py, pz = X[4]\n                if vpar.x_lay[0] < px < vpar.x_lay[1]:\n                    if run_info.ymin < py < run_info.ymax:\n                        if vpar.z_min_lay[0] < pz < vpar.z_max_lay[1]:\n                            in_volume = 1\n"))
r(TK, ("            if curr_path_inf.inlist == 0 and curr_path_inf.prev_frame >= 0:\n                quali, v2, philf = assess_new_position(X[2], fb.buf[2], run_info)\n                if quali >= 2:\n                    X[3] = vec_copy(X[2])\n                    in_volume = 0\n", "            if curr_path_inf.inlist == 0 and curr_path_inf.prev_frame >= 0:\n                quali, v2, philf = assess_new_position(X[2], fb.buf[2], run_info)\n                if quali > 1:\n                    in_volume = 0\n"))
r(TK, ("            for j in range(fb.num_cams):\n                v1[j] = point_to_pixel(X[5], cal[j], cpar)\n", "            v1[: fb.num_cams] = [point_to_pixel(X[5], cal[j], cpar) for j in range(fb.num_cams)]\n"))
r(TK, ("                    diff_pos = vec_subt(X[4], X[3])\n                    # print(f\"inside kk loop", "                    diff_pos = X[4] - X[3]\n                    # print(f\"inside kk loop"))
r(TK, ("        while w[mm].ftnr != TR_UNUSED and len(fb.buf[2].path_info) > w[mm].ftnr:\n", "        while not (w[mm].ftnr == TR_UNUSED or w[mm].ftnr >= len(fb.buf[2].path_info)):\n"))
r(TK, ("    num_parts = frm.num_parts\n    if num_parts < len(frm.path_info):\n        ref_path_inf = frm.path_info[num_parts]\n        ref_corres = frm.correspond[num_parts]\n    else:\n        ref_path_inf = Pathinfo()\n        frm.path_info.append(ref_path_inf)\n", "    num_parts = frm.num_parts\n    if num_parts < len(frm.path_info):\n        ref_path_inf = frm.path_info[num_parts]\n        ref_corres = frm.correspond[num_parts]\n    else:\n        frm.path_info.append(Pathinfo())\n        ref_path_inf = frm.path_info[-1]\n"))
r(TK, ("        if cand_inds[cam][0] != TR_UNUSED:\n            _ix = cand_inds[cam][0]\n            ref_targets[cam][_ix].tnr = num_parts\n            ref_corres.p[cam] = _ix\n            ref_corres.nr = num_parts\n", "        first = cand_inds[cam][0]\n        if first == TR_UNUSED:\n            continue\n        ref_corres.nr = num_parts\n        ref_corres.p[cam] = first\n        frm.targets[cam][first].tnr = num_parts\n"))
r(TK, ("    valid_cams = 0\n\n    for cam in range(run.cpar.num_cams):\n        if (targ_pos[cam][0] != COORD_UNUSED) and (targ_pos[cam][1] != COORD_UNUSED):\n", "    valid_cams = 0\n\n    for cam in range(run.cpar.num_cams):\n        seen = targ_pos[cam][0] != COORD_UNUSED and targ_pos[cam][1] != COORD_UNUSED\n        if seen:\n"))
r(TK, ("        if num_cands > 0:\n            _ix = cand_inds[cam][0]  # first nearest neighbour\n            targ_pos[cam][0] = frm.targets[cam][_ix].x\n            targ_pos[cam][1] = frm.targets[cam][_ix].y\n", "        if num_cands > 0:\n            nearest = frm.targets[cam][cand_inds[cam][0]]\n            targ_pos[cam] = [nearest.x, nearest.y]\n"))
r(TK, ("    j0 -= 12 if j0 >= 12 else j0", "    j0 = max(j0 - 12, 0)") if False else ("        j0 -= 12 if j0 >= 12 else j0  # due to trunc\n", "        j0 = max(j0 - 12, 0)\n"))
r(TK, ("            if next_frame[j].tnr == TR_UNUSED:\n                if next_frame[j].y > ymax:\n                    break  # finish search\n                if xmin < next_frame[j].x < xmax and ymin < next_frame[j].y < ymax:\n                    d = np.sqrt(\n                        (cent_x - next_frame[j].x) ** 2\n                        + (cent_y - next_frame[j].y) ** 2\n                    )\n                    if d < dmin:\n                        dmin = d\n                        p[0] = j\n",
   "            targ = next_frame[j]\n            if targ.tnr != TR_UNUSED:\n                continue\n            if targ.y > ymax:\n                break\n            if not (xmin < targ.x < xmax and ymin < targ.y < ymax):\n                continue\n            d = np.hypot(targ.x - cent_x, targ.y - cent_y)\n            if d < dmin:\n                dmin, p[0] = d, j\n"))
r(TK, ("            if pt & (1 << dim):\n                quader[pt][dim] += maxes[dim]\n            else:\n                quader[pt][dim] += mins[dim]\n", "            quader[pt][dim] += maxes[dim] if (pt >> dim) & 1 else mins[dim]\n"))
r(TK, ("            if corner[0] < xl[i]:\n                xl[i] = corner[0]\n            if corner[1] < yu[i]:\n                yu[i] = corner[1]\n            if corner[0] > xr[i]:\n                xr[i] = corner[0]\n            if corner[1] > yd[i]:\n                yd[i] = corner[1]\n", "            xl[i] = min(xl[i], corner[0])\n            xr[i] = max(xr[i], corner[0])\n            yu[i] = min(yu[i], corner[1])\n            yd[i] = max(yd[i], corner[1])\n"))
r(TK, ("        if xl[i] < 0:\n            xl[i] = 0\n        if yu[i] < 0:\n            yu[i] = 0\n        if xr[i] > cpar.imx:\n            xr[i] = cpar.imx\n        if yd[i] > cpar.imy:\n            yd[i] = cpar.imy\n", "        xl[i], yu[i] = max(xl[i], 0), max(yu[i], 0)\n        xr[i], yd[i] = min(xr[i], cpar.imx), min(yd[i], cpar.imy)\n"))
r(TK, ("    if np.all(v0 == -v1):\n        angle = 200\n    elif np.all(v0 == v1):\n        angle = 0\n    else:\n        dot_product = np.sum(v0 * v1)\n        norm_start_pred = np.linalg.norm(start - pred)\n        norm_start_cand = np.linalg.norm(start - cand)\n\n        norm_product = norm_start_pred * norm_start_cand\n", "    if np.all(v0 == -v1):\n        angle = 200\n    elif np.all(v0 == v1):\n        angle = 0\n    else:\n        dot_product = np.dot(v0, v1)\n        norm_product = np.linalg.norm(v0) * np.linalg.norm(v1)\n"))
r(TK, ("    return (\n        bounds.dvxmin < pos[0] < bounds.dvxmax\n        and bounds.dvymin < pos[1] < bounds.dvymax\n        and bounds.dvzmin < pos[2] < bounds.dvzmax\n    )", "    if not (bounds.dvxmin < pos[0] < bounds.dvxmax):\n        return False\n    if not (bounds.dvymin < pos[1] < bounds.dvymax):\n        return False\n    return bounds.dvzmin < pos[2] and pos[2] < bounds.dvzmax"))
r(TK, ("        if all_cands[cand_idx] == TR_UNUSED:\n            reg[cand_idx].ftnr = TR_UNUSED\n        else:\n            # Register candidate data in the foundpix object\n            reg[cand_idx].whichcam[cam] = 1\n            reg[cand_idx].ftnr = targets[all_cands[cand_idx]].tnr\n", "        cand = all_cands[cand_idx]\n        if cand != TR_UNUSED:\n            reg[cand_idx].ftnr = targets[cand].tnr\n            reg[cand_idx].whichcam[cam] = 1\n            continue\n        reg[cand_idx].ftnr = TR_UNUSED\n"))
r(TK, ("            if next_frame[j].tnr != -1:\n                if next_frame[j].y > ymax:\n                    break\n", "            if next_frame[j].tnr != TR_UNUSED:\n                if not next_frame[j].y <= ymax:\n                    break\n"))
r(TK, ("    x, y = img_coord(point, cal, cpar.mm)\n    # print(\"img coord x, y\", x, y)\n    x, y = metric_to_pixel(x, y, cpar)\n    # print(\"metric to pixel x, y\", x, y)\n    return np.array([x, y])\n", "    xm, ym = img_coord(point, cal, cpar.mm)\n    return np.array(metric_to_pixel(xm, ym, cpar))\n"))

# ---- correspondences
r(CO, ("                if p1 >= nmax or tusage[i1][p1] > 0:\n                    continue\n\n                if corr_list[i1][i2][i].n != 1:\n                    continue\n", "                if corr_list[i1][i2][i].n != 1:\n                    continue\n\n                if p1 >= nmax or tusage[i1][p1] > 0:\n                    continue\n"))
r(CO, ("                p2 = corr_list[i1][i2][i].p2[0]\n                if p2 >= nmax or tusage[i2][p2] > 0:\n                    continue\n\n                corr = corr_list[i1][i2][i].corr[0] / corr_list[i1][i2][i].dist[0]\n", "                entry = corr_list[i1][i2][i]\n                p2 = entry.p2[0]\n                if p2 >= nmax or tusage[i2][p2] > 0:\n                    continue\n\n                corr = entry.corr[0] / entry.dist[0]\n"))
r(CO, ("                for n in range(num_cams):\n                    scratch[matched].p[n] = -2\n\n                scratch[matched].p[i1] = p1\n                scratch[matched].p[i2] = p2\n                scratch[matched].corr = corr\n", "                members = np.full(TR_MAX_CAMS, -2)\n                members[i1] = p1\n                members[i2] = p2\n                scratch[matched].p = members\n                scratch[matched].corr = corr\n"))
r(CO, ("                            indices = np.where(p2array == p3)[0]\n                            if indices.size == 0:\n                                continue\n", "                            (indices,) = np.nonzero(p2array == p3)\n                            if len(indices) == 0:\n                                continue\n"))
r(CO, ("                            p2array = np.atleast_1d(\n                                corr_list[i2][i3][p2].p2[: corr_list[i2][i3][p2].n]\n                            )\n                            indices = np.where(p2array == p3)[0]\n                            if indices.size == 0:\n                                continue\n", "                            partners = list(corr_list[i2][i3][p2].p2[: corr_list[i2][i3][p2].n])\n                            if p3 not in partners:\n                                continue\n"), ("                            m = indices[0]\n", "                            m = partners.index(p3)\n"))
r(CO, ("                                if corr <= accept_corr:\n                                    continue\n\n                                # accept as preliminary match\n                                scratch[matched].p[0] = p1\n                                scratch[matched].p[1] = p2\n                                scratch[matched].p[2] = p3\n                                scratch[matched].p[3] = p4\n                                scratch[matched].corr = corr\n", "                                if not corr > accept_corr:\n                                    continue\n\n                                row = scratch[matched]\n                                for c, t in enumerate((p1, p2, p3, p4)):\n                                    row.p[c] = t\n                                row.corr = corr\n"))
r(CO, ("        for j in range(corr_list[0][1][i].n):\n            p2 = corr_list[0][1][i].p2[j]\n", "        first = corr_list[0][1][i]\n        for j in range(first.n):\n            p2 = first.p2[j]\n"))
r(CO, ("        has_used_target = False\n        for cam in range(num_cams):\n            tnum = cand.p[cam]\n\n            # If any correspondence in this camera, check if the target is free\n            if tnum > -1 and tusage[cam][tnum] > 0:\n                has_used_target = True\n                break\n\n        if has_used_target:\n            continue\n", "        if any(cand.p[cam] > -1 and tusage[cam][cand.p[cam]] > 0 for cam in range(num_cams)):\n            continue\n"))
r(CO, ("def take_best_candidates(", "def is_free(cand, num_cams, tusage):\n    \"\"\"Tell whether no target of a candidate is in use.\"\"\"\n    for cam in range(num_cams):\n        tnum = cand.p[cam]\n        if tnum > -1 and tusage[cam][tnum] > 0:\n            return False\n    return True\n\n\ndef take_best_candidates("), ("        has_used_target = False\n        for cam in range(num_cams):\n            tnum = cand.p[cam]\n\n            # If any correspondence in this camera, check if the target is free\n            if tnum > -1 and tusage[cam][tnum] > 0:\n                has_used_target = True\n                break\n\n        if has_used_target:\n            continue\n", "        if not is_free(cand, num_cams, tusage):\n            continue\n"))
r(CO, ("        # Mark the targets as used\n        for cam in range(num_cams):\n            tnum = cand.p[cam]\n            if tnum > -1:\n                tusage[cam][tnum] += 1\n\n        dst[taken] = cand\n        taken += 1\n", "        dst[taken] = cand\n        taken += 1\n\n        # Mark the targets as used\n        for cam, tnum in enumerate(cand.p[:num_cams]):\n            if tnum >= 0:\n                tusage[cam][tnum] += 1\n"))
r(CO, ("    src.sort(order=\"corr\")  # by corr\n    src[:] = np.flip(\n        src, axis=0\n    )  # reverse order in-place while preserving recarray type\n", "    src.sort(order=\"corr\")\n    src[:] = src[::-1].copy()\n"))
r(CO, ("                count = min(len(cand), MAXCAND)\n\n                for j in range(count):\n                    corr_lists[i1][i2][i].p2[j] = cand[j].pnr\n                    corr_lists[i1][i2][i].corr[j] = cand[j].corr\n                    corr_lists[i1][i2][i].dist[j] = cand[j].tol\n\n                corr_lists[i1][i2][i].n = count\n", "                count = len(cand) if len(cand) < MAXCAND else MAXCAND\n                entry = corr_lists[i1][i2][i]\n                for j in range(count):\n                    c = cand[j]\n                    entry.p2[j] = c.pnr\n                    entry.corr[j] = c.corr\n                    entry.dist[j] = c.tol\n                entry.n = count\n"))
r(CO, ("                    frm.targets[i1][pt1].n,\n                    frm.targets[i1][pt1].nx,\n                    frm.targets[i1][pt1].ny,\n                    frm.targets[i1][pt1].sumg,\n", "                    origin.n,\n                    origin.nx,\n                    origin.ny,\n                    origin.sumg,\n"), ("                pt1 = corrected[i1][i].pnr\n", "                origin = frm.targets[i1][corrected[i1][i].pnr]\n"))
r(CO, ("                geo_id = corresp_buf[pt + last_count].p[cam]\n                if geo_id < 0:\n                    continue\n\n                p1 = flat_coords[cam][geo_id].pnr\n                clique_ids[cam, pt] = p1\n\n                if p1 > -1:\n                    targ = img_pts[cam][p1]\n                    clique_targs[cam, pt, 0] = targ.x\n                    clique_targs[cam, pt, 1] = targ.y\n", "                geo_id = corresp_buf[last_count + pt].p[cam]\n                if geo_id >= 0:\n                    p1 = flat_coords[cam][geo_id].pnr\n                    clique_ids[cam, pt] = p1\n                    if p1 >= 0:\n                        targ = img_pts[cam][p1]\n                        clique_targs[cam, pt] = targ.x, targ.y\n"))
r(CO, ("    for cam in range(num_cams):\n        # calib[cam] = (<Calibration>cals[cam])._calibration\n        # frm.targets[cam] = (<TargetArray>img_pts[cam])._tarr\n        frm.num_targets[cam] = len(img_pts[cam])\n        frm.targets[cam] = img_pts[cam]\n", "    for cam, targs in enumerate(img_pts[:num_cams]):\n        frm.targets[cam] = targs\n        frm.num_targets[cam] = len(targs)\n"))
# ---- find_candidate
r(FC, ("        if crd[j].y <= ya - vpar.eps0 or crd[j].y >= yb + vpar.eps0:\n            continue\n        if crd[j].x <= xa - vpar.eps0 or crd[j].x >= xb + vpar.eps0:\n            continue\n", "        x, y = crd[j].x, crd[j].y\n        inside = (\n            xa - vpar.eps0 < x < xb + vpar.eps0 and ya - vpar.eps0 < y < yb + vpar.eps0\n        )\n        if not inside:\n            continue\n"))
r(FC, ("        d = math.fabs((crd[j].y - m * crd[j].x - b) / math.sqrt(m * m + 1))\n", "        d = abs(crd[j].y - (m * crd[j].x + b)) / math.sqrt(1 + m**2)\n"))
r(FC, ("        qn = quality_ratio(n, pix[p2].n)\n        qnx = quality_ratio(nx, pix[p2].nx)\n        qny = quality_ratio(ny, pix[p2].ny)\n        qsumg = quality_ratio(sumg, pix[p2].sumg)\n", "        other = pix[p2]\n        qn, qnx, qny, qsumg = (\n            quality_ratio(a, b_)\n            for a, b_ in ((n, other.n), (nx, other.nx), (ny, other.ny), (sumg, other.sumg))\n        )\n"))
r(FC, ("        corr = 4 * qsumg + 2 * qn + qnx + qny\n\n        # Prefer matches with brighter targets.\n        corr *= sumg + pix[p2].sumg\n", "        brightness = sumg + pix[p2].sumg\n        corr = brightness * (4 * qsumg + 2 * qn + qnx + qny)\n"))
r(FC, ("    if xb <= xmin or xa >= xmax or yb <= ymin or ya >= ymax:\n", "    if not (xb > xmin and xa < xmax and yb > ymin and ya < ymax):\n"))
r(FC, ("    if xa > xb:\n        xa, xb = xb, xa\n\n    if ya > yb:\n        ya, yb = yb, ya\n", "    xa, xb = min(xa, xb), max(xa, xb)\n    ya, yb = min(ya, yb), max(ya, yb)\n"))
r(FC, ("    xmin = (-1) * cpar.pix_x * cpar.imx / 2\n    xmax = cpar.pix_x * cpar.imx / 2\n    ymin = (-1) * cpar.pix_y * cpar.imy / 2\n    ymax = cpar.pix_y * cpar.imy / 2\n\n    xmin, ymin = dist_to_flat(xmin, ymin, cal)\n    xmax, ymax = dist_to_flat(xmax, ymax, cal)\n", "    half_x, half_y = 0.5 * cpar.pix_x * cpar.imx, 0.5 * cpar.pix_y * cpar.imy\n    xmin, ymin = dist_to_flat(-half_x, -half_y, cal)\n    xmax, ymax = dist_to_flat(half_x, half_y, cal)\n"))
r(FC, ("        if crd[j].x > xb + vpar.eps0:\n            out = np.array(cand).view(np.recarray).flatten()\n            return out  # type: ignore\n", "        if crd[j].x > xb + vpar.eps0:\n            break\n"))
r(FC, ("    start_point = j0 - 12  # why in C it's -12 ? -12 is a magic number\n    if start_point < 0:\n        start_point = 0\n\n    return start_point", "    return max(0, j0 - 12)"))
r(FC, ("    if a == 0 and b == 0:\n        return 0\n    return min(a, b) / max(a, b)\n", "    largest = max(a, b)\n    smallest = min(a, b)\n    if largest == 0 and smallest == 0:\n        return 0.0\n    return smallest / largest\n"))
# ---- sortgrid
r(SO, ("        if (\n            (calib_point[0] > -eps)\n            and (calib_point[1] > -eps)\n            and (calib_point[0] < cpar.imx + eps)\n            and (calib_point[1] < cpar.imy + eps)\n        ):\n            j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)\n\n            if j != -999:\n                sorted_pix[i] = replace(pix[j], pnr=i)\n", "        x, y = calib_point\n        if not (-eps < x < cpar.imx + eps and -eps < y < cpar.imy + eps):\n            continue\n        j = nearest_neighbour_pix(pix, x, y, eps)\n        if j == PT_UNUSED:\n            continue\n        found = replace(pix[j])\n        found.pnr = i\n        sorted_pix[i] = found\n"))
r(SO, ("    sorted_pix = [Target() for _ in range(nfix)]\n\n    for i in range(nfix):\n        xp, yp = img_coord(fix[i], cal, cpar.mm)\n\n        calib_point = metric_to_pixel(xp, yp, cpar)\n", "    sorted_pix = []\n    for _ in range(nfix):\n        sorted_pix.append(Target())\n\n    for i, point in enumerate(fix[:nfix]):\n        calib_point = metric_to_pixel(*img_coord(point, cal, cpar.mm), cpar)\n"))
r(SO, ("    for count, t in enumerate(pix):\n        if ymin < t.y < ymax and xmin < t.x < xmax:\n            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)\n            if d < dmin:\n                dmin = d\n                pnr = count\n", "    for count in range(len(pix)):\n        t = pix[count]\n        if not (ymin < t.y < ymax and xmin < t.x < xmax):\n            continue\n        d = np.hypot(x - t.x, y - t.y)\n        if d >= dmin:\n            continue\n        dmin, pnr = d, count\n"))
r(SO, ("    xmin, xmax, ymin, ymax = x - eps, x + eps, y - eps, y + eps\n\n    for count, t in enumerate(pix):\n        if ymin < t.y < ymax and xmin < t.x < xmax:\n            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)\n", "    for count, t in enumerate(pix):\n        if abs(t.y - y) < eps and abs(t.x - x) < eps:\n            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)\n"))
# ---- orientation
OR = "orientation.py"
r(OR, ("    temp = np.cross(sp_diff, direct2)\n    on1 = vert1 + direct1 * np.dot(perp_both, temp) / scale\n\n    temp = np.cross(sp_diff, direct1)\n    on2 = vert2 + direct2 * np.dot(perp_both, temp) / scale\n\n    scale = np.linalg.norm(on1 - on2)\n\n    res = (on1 + on2) * 0.5\n    return float(scale), res\n", "    t1 = np.dot(perp_both, np.cross(sp_diff, direct2)) / scale\n    t2 = np.dot(perp_both, np.cross(sp_diff, direct1)) / scale\n    on1 = vert1 + t1 * direct1\n    on2 = vert2 + t2 * direct2\n\n    return float(np.linalg.norm(on2 - on1)), (on1 + on2) / 2.0\n"))
r(OR, ("    vertices = np.zeros((num_cams, 3))\n    directs = np.zeros((num_cams, 3))\n    point = np.zeros(3)\n\n    # Shoot rays from all cameras.\n    for cam in range(num_cams):\n        if targets[cam][0] != COORD_UNUSED:\n            vertices[cam], directs[cam] = ray_tracing(\n                targets[cam][0], targets[cam][1], cals[cam], multimed_pars\n            )\n\n    # Check intersection distance for each pair of rays and find position\n    for cam in range(num_cams):\n        if targets[cam][0] == COORD_UNUSED:\n            continue\n\n        for pair in range(cam + 1, num_cams):\n            if targets[pair][0] == COORD_UNUSED:\n                continue\n\n            num_used_pairs += 1\n            tmp, point = skew_midpoint(\n                vertices[cam], directs[cam], vertices[pair], directs[pair]\n            )\n            dtot += tmp\n            point_tot += point\n", "    # Shoot rays from all cameras.\n    rays = []\n    for cam in range(num_cams):\n        x, y = targets[cam]\n        if x != COORD_UNUSED:\n            rays.append(ray_tracing(x, y, cals[cam], multimed_pars))\n\n    # Check intersection distance for each pair of rays and find position\n    for first in range(len(rays)):\n        for second in range(first + 1, len(rays)):\n            tmp, point = skew_midpoint(*rays[first], *rays[second])\n            num_used_pairs += 1\n            dtot += tmp\n            point_tot += point\n"))
r(OR, ("    for cam in range(num_cams):\n        if targets[cam][0] == COORD_UNUSED:\n            continue\n\n        for pair in range(cam + 1, num_cams):\n            if targets[pair][0] == COORD_UNUSED:\n                continue\n\n            num_used_pairs += 1\n            tmp, point", "    for cam in range(num_cams - 1):\n        for pair in range(cam + 1, num_cams):\n            if COORD_UNUSED in (targets[cam][0], targets[pair][0]):\n                continue\n\n            num_used_pairs += 1\n            tmp, point"))
r(OR, ("    # Shoot rays from all cameras.\n    for cam in range(num_cams):\n        if targets[cam][0] != COORD_UNUSED:\n", "    # Shoot rays from all cameras.\n    seen = [targets[cam][0] != COORD_UNUSED for cam in range(num_cams)]\n    for cam in range(num_cams):\n        if seen[cam]:\n"), ("        if targets[cam][0] == COORD_UNUSED:\n            continue\n", "        if not seen[cam]:\n            continue\n"), ("            if targets[pair][0] == COORD_UNUSED:\n                continue\n", "            if not seen[pair]:\n                continue\n"))
r(OR, ("    res = point_tot / num_used_pairs\n    dtot /= num_used_pairs\n\n    return float(dtot), res.astype(float)\n", "    scale = 1.0 / num_used_pairs\n    return float(dtot * scale), point_tot * scale\n"))
r(OR, ("        if pt % 2 == 1:\n            dist = float(np.linalg.norm(res[0] - res[1]))\n            len_err_tot += 1.0 - float(\n                db_length / dist if dist > db_length else dist / db_length\n            )\n", "        if pt % 2 == 1:\n            dist = float(np.linalg.norm(res[1] - res[0]))\n            ratio = min(dist, db_length) / max(dist, db_length)\n            len_err_tot += 1.0 - ratio\n"))
r(OR, ("    for pt in range(num_targs):\n        tmp, res[pt % 2] = point_position(targets[pt], num_cams, multimed_pars, cals)\n        dtot += tmp\n\n        if pt % 2 == 1:\n", "    for pt, targ in enumerate(targets):\n        tmp, where = point_position(targ, num_cams, multimed_pars, cals)\n        res[pt % 2] = where\n        dtot += tmp\n\n        if pt & 1:\n"))
r(OR, ("    return float(dtot / num_targs + db_weight * len_err_tot / (0.5 * num_targs))\n", "    return float((dtot + 2 * db_weight * len_err_tot) / num_targs)\n"))
r(OR, ("    steps = [dpos, dpos, dpos, dang, dang, dang]\n", "    steps = 3 * [dpos] + 3 * [dang]\n"))
r(OR, ("        x_ders[pd] = (xpd - xs) / steps[pd]\n        y_ders[pd] = (ypd - ys) / steps[pd]\n\n        # print(f\"   x_ders[{pd}] = {x_ders[pd]}, y_ders[{pd}] = {y_ders[pd]}\")\n\n        cal.increment_attribute(var[pd], -steps[pd])\n", "        cal.increment_attribute(var[pd], -steps[pd])\n\n        x_ders[pd] = (xpd - xs) / steps[pd]\n        y_ders[pd] = (ypd - ys) / steps[pd]\n"))
r(OR, ("    for pd in range(6):\n        cal.increment_attribute(var[pd], steps[pd])\n        # print(f\"exterior = {cal.ext_par}\")\n        if pd > 2:\n            cal.update_rotation_matrix()\n", "    for pd, (name, step) in enumerate(zip(var, steps)):\n        cal.increment_attribute(name, step)\n        cal.update_rotation_matrix()\n"), ("        cal.increment_attribute(var[pd], -steps[pd])\n", "        cal.increment_attribute(name, -step)\n"))
r(OR, ("    if flags.useflag == 1 and i % 2 == 0:\n        return False\n    elif flags.useflag == 2 and i % 2 != 0:\n        return False\n    elif flags.useflag == 3 and i % 3 == 0:\n        return False\n\n    return True\n", "    if flags.useflag == 1:\n        return i % 2 == 1\n    if flags.useflag == 2:\n        return i % 2 == 0\n    if flags.useflag == 3:\n        return i % 3 != 0\n    return True\n"))
r(OR, ("    if pix[i].pnr != i:  # we need to check this point here\n        return False\n\n    if flags.useflag == 1 and i % 2 == 0:\n        return False\n    elif flags.useflag == 2 and i % 2 != 0:\n        return False\n    elif flags.useflag == 3 and i % 3 == 0:\n        return False\n\n    return True\n", "    left_out = (\n        (flags.useflag == 1 and i % 2 == 0)\n        or (flags.useflag == 2 and i % 2 == 1)\n        or (flags.useflag == 3 and i % 3 == 0)\n    )\n    return pix[i].pnr == i and not left_out\n"))
r(OR, ("    for i in range(len(ref_pts))\n", "    for i in range(len(ref_pts))\n") if False else ("    for ix in range(len(used)):\n        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])\n", "    for ix in range(len(used)):\n        ret[ix, 0] = residuals[2 * ix]\n        ret[ix, 1] = residuals[2 * ix + 1]\n"))
r(OR, ("    ret = np.empty((len(used), 2))\n\n    for ix in range(len(used)):\n        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])\n", "    ret = residuals[: 2 * len(used)].reshape(-1, 2).copy()\n"))
r(OR, ("            if is_used_for_orientation(i, targs, orient_par)\n        ],\n        dtype=np.int_,\n    )\n", "            if is_used_for_orientation(i, targs, orient_par)\n        ],\n        dtype=int,\n    )\n"))
r(OR, ("    used = np.array(\n        [\n            i\n            for i in range(len(ref_pts))\n            if is_used_for_orientation(i, targs, orient_par)\n        ],\n        dtype=np.int_,\n    )\n", "    taken = []\n    for i in range(len(ref_pts)):\n        if not is_used_for_orientation(i, targs, orient_par):\n            continue\n        taken.append(i)\n    used = np.array(taken, dtype=np.int_)\n"))
r(OR, ("    if residuals is None:\n        # free(residuals)\n        print(f\"Residuals = {residuals}\")\n        raise ValueError(", "    if residuals is None:\n        raise ValueError("))
r(OR, ("        for ptx, pt in enumerate(img_pts):\n            targs[ptx].x = pt[0]\n            targs[ptx].y = pt[1]\n            targs[ptx].pnr = ptx\n", "        for ptx in range(len(img_pts)):\n            targ = targs[ptx]\n            targ.pnr = ptx\n            targ.x, targ.y = img_pts[ptx][0], img_pts[ptx][1]\n"))
r(OR, ("            # get metric (distorted) image coordinates of the detected point,\n            # as img_coord gives for the projection of the known point\n            xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)\n\n", ""), ("            y[n] = xc - xp\n            y[n + 1] = yc - yp\n\n            n += 2\n            # end of while", "            xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)\n            y[n] = xc - xp\n            y[n + 1] = yc - yp\n\n            n += 2\n            # end of while"))
r(OR, ("            if not is_used_for_orientation(i, pix, flags):\n                continue\n\n            # get metric", "            used = is_used_for_orientation(i, pix, flags)\n            if not used:\n                continue\n\n            # get metric"))
r(OR, ("            r = np.sqrt(xp * xp + yp * yp)\n\n            X[n][7]", "            r = np.hypot(xp, yp)\n\n            X[n][7]"), ("            X[n][10] = cal.added_par[5] * xp * pow(r, 4)\n            X[n + 1][10] = yp * pow(r, 4)\n", "            X[n, 10] = cal.added_par[5] * xp * r**4\n            X[n + 1, 10] = yp * r**4\n"))
r(OR, ("            qq = cal.added_par[0] * r * r\n            qq += cal.added_par[1] * pow(r, 4)\n            qq += cal.added_par[2] * pow(r, 6)\n            qq += 1\n", "            k1, k2, k3 = cal.added_par[:3]\n            qq = 1 + r * r * (k1 + r * r * (k2 + r * r * k3))\n"))
r(OR, ("        y[n_obs + 0] = ident[0] - cal.int_par.cc\n        y[n_obs + 1] = ident[1] - cal.int_par.xh\n        y[n_obs + 2] = ident[2] - cal.int_par.yh\n        y[n_obs + 3] = ident[3] - cal.added_par[0]\n        y[n_obs + 4] = ident[4] - cal.added_par[1]\n        y[n_obs + 5] = ident[5] - cal.added_par[2]\n        y[n_obs + 6] = ident[6] - cal.added_par[3]\n        y[n_obs + 7] = ident[7] - cal.added_par[4]\n        y[n_obs + 8] = ident[8] - cal.added_par[5]\n        y[n_obs + 9] = ident[9] - cal.added_par[6]\n", "        y[n_obs + 0] = ident[0] - cal.int_par.cc\n        y[n_obs + 1] = ident[1] - cal.int_par.xh\n        y[n_obs + 2] = ident[2] - cal.int_par.yh\n        for k in range(7):\n            y[n_obs + 3 + k] = ident[3 + k] - cal.added_par[k]\n"))
r(OR, ("        P[n_obs + 0] = POS_INF if not flags.ccflag else 1\n        P[n_obs + 1] = POS_INF if not flags.xhflag else 1\n        P[n_obs + 2] = POS_INF if not flags.yhflag else 1\n        P[n_obs + 3] = POS_INF if not flags.k1flag else 1\n        P[n_obs + 4] = POS_INF if not flags.k2flag else 1\n        P[n_obs + 5] = POS_INF if not flags.k3flag else 1\n        P[n_obs + 6] = POS_INF if not flags.p1flag else 1\n        P[n_obs + 7] = POS_INF if not flags.p2flag else 1\n        P[n_obs + 8] = POS_INF if not flags.scxflag else 1\n        P[n_obs + 9] = POS_INF if not flags.sheflag else 1\n",
   "        free = (\n            flags.ccflag, flags.xhflag, flags.yhflag, flags.k1flag, flags.k2flag,\n            flags.k3flag, flags.p1flag, flags.p2flag, flags.scxflag, flags.sheflag,\n        )\n        for k, flag in enumerate(free):\n            P[n_obs + k] = 1 if flag else POS_INF\n"))
r(OR, ("        n_obs += IDT\n        sumP = 0\n        for i in range(n_obs):  # homogenize\n            p = np.sqrt(P[i])\n            for j in range(NPAR):\n                Xh[i][j] = p * X[i][j]\n\n            yh[i] = p * y[i]\n            sumP += P[i]\n", "        n_obs += IDT\n        for i in range(n_obs):  # homogenize\n            p = np.sqrt(P[i])\n            Xh[i] = p * X[i]\n            yh[i] = p * y[i]\n"))
r(OR, ("        stopflag = True\n        for i in range(numbers):\n            if abs(beta[i]) > CONVERGENCE:\n                stopflag = False\n", "        stopflag = all(abs(beta[i]) <= CONVERGENCE for i in range(numbers))\n"))
r(OR, ("        stopflag = True\n        for i in range(numbers):\n            if abs(beta[i]) > CONVERGENCE:\n                stopflag = False\n", "        stopflag = True\n        for i in range(numbers):\n            if abs(beta[i]) > CONVERGENCE:\n                stopflag = False\n                break\n"))
r(OR, ("        if not flags.ccflag:\n            beta[6] = 0.0\n        if not flags.xhflag:\n            beta[7] = 0.0\n        if not flags.yhflag:\n            beta[8] = 0.0\n        if not flags.k1flag:\n            beta[9] = 0.0\n        if not flags.k2flag:\n            beta[10] = 0.0\n        if not flags.k3flag:\n            beta[11] = 0.0\n        if not flags.p1flag:\n            beta[12] = 0.0\n        if not flags.p2flag:\n            beta[13] = 0.0\n        if not flags.scxflag:\n            beta[14] = 0.0\n        if not flags.sheflag:\n            beta[15] = 0.0\n",
   "        free = [\n            flags.ccflag, flags.xhflag, flags.yhflag, flags.k1flag, flags.k2flag,\n            flags.k3flag, flags.p1flag, flags.p2flag, flags.scxflag, flags.sheflag,\n        ]\n        for k, flag in enumerate(free, start=6):\n            if not flag:\n                beta[k] = 0.0\n"))
r(OR, ("        if not flags.ccflag:\n            beta[6] = 0.0\n        if not flags.xhflag:\n            beta[7] = 0.0\n", "        beta[6] = beta[6] if flags.ccflag else 0.0\n        beta[7] = beta[7] if flags.xhflag else 0.0\n"))
r(OR, ("        cal.added_par[0] += beta[9]\n        cal.added_par[1] += beta[10]\n        cal.added_par[2] += beta[11]\n        cal.added_par[3] += beta[12]\n        cal.added_par[4] += beta[13]\n        cal.added_par[5] += beta[14]\n        cal.added_par[6] += beta[15]\n\n        if flags", "        for k in range(7):\n            cal.added_par[k] += beta[9 + k]\n\n        if flags"))
r(OR, ("        cal.added_par[0] += beta[9]\n        cal.added_par[1] += beta[10]\n        cal.added_par[2] += beta[11]\n        cal.added_par[3] += beta[12]\n        cal.added_par[4] += beta[13]\n        cal.added_par[5] += beta[14]\n        cal.added_par[6] += beta[15]\n\n        if flags", "        cal.added_par += beta[9:16]\n\n        if flags"))
r(OR, ("            cal.glass_par[0] += e1[0] * nGl * beta[16]\n            cal.glass_par[1] += e1[1] * nGl * beta[16]\n            cal.glass_par[2] += e1[2] * nGl * beta[16]\n            cal.glass_par[0] += e2[0] * nGl * beta[17]\n            cal.glass_par[1] += e2[1] * nGl * beta[17]\n            cal.glass_par[2] += e2[2] * nGl * beta[17]\n", "            shift = nGl * (beta[16] * e1 + beta[17] * e2)\n            for k in range(3):\n                cal.glass_par[k] += shift[k]\n"))
r(OR, ("    if stopflag:\n        cal.update_rotation_matrix()\n        cal.copy(cal_in)\n        return resi\n    else:\n        return None\n", "    if not stopflag:\n        return None\n\n    cal.update_rotation_matrix()\n    cal.copy(cal_in)\n    return resi\n"))
r(OR, ("    resi = Xbeta - y\n    omega = np.sum(resi * P * resi)\n    sigmabeta[NPAR] = np.sqrt(omega / (n_obs - numbers))\n", "    resi = Xbeta - y\n    omega = np.dot(P, resi**2)\n    sigma0 = np.sqrt(omega / (n_obs - numbers))\n    sigmabeta[NPAR] = sigma0\n"), ("    sigmabeta[:numbers] = sigmabeta[NPAR] * np.sqrt(np.diag(XPX))\n", "    sigmabeta[:numbers] = sigma0 * np.sqrt(np.diag(XPX))\n"))
r(OR, ("            cal.glass_par[0] += e1[0] * nGl * dm\n            cal.glass_par[1] += e1[1] * nGl * dm\n            cal.glass_par[2] += e1[2] * nGl * dm\n            xpd", "            for k in range(3):\n                cal.glass_par[k] += e1[k] * nGl * dm\n            xpd"))
r(OR, ("    while not (stopflag or itnum >= NUM_ITER):\n        itnum += 1\n        n = 0\n", "    while True:\n        if stopflag or itnum >= NUM_ITER:\n            break\n        itnum += 1\n        n = 0\n"))
r(OR, ("    while not (stopflag or itnum >= NUM_ITER):\n        itnum += 1\n        n = 0\n", "    for itnum in range(1, NUM_ITER + 1):\n        if stopflag:\n            break\n        n = 0\n"))
# raw_orient
r(OR, ("    cal.added_par = np.array([0, 0, 0, 0, 0, 1, 0], dtype=np.float64)\n    itnum = 0", "    cal.added_par = np.zeros(7)\n    cal.added_par[5] = 1.0\n    itnum = 0"))
r(OR, ("            xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)\n            pos = fix[i]\n            cal.update_rotation_matrix()\n            xp, yp = img_coord(pos, cal, cpar.mm)\n            X[n], X[n + 1] = num_deriv_exterior(cal, cpar, dm, drad, pos)\n            y[n] = xc - xp\n            y[n + 1] = yc - yp\n            n += 2\n", "            pos = fix[i]\n            cal.update_rotation_matrix()\n            xp, yp = img_coord(pos, cal, cpar.mm)\n            xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)\n            y[2 * i] = xc - xp\n            y[2 * i + 1] = yc - yp\n            X[2 * i], X[2 * i + 1] = num_deriv_exterior(cal, cpar, dm, drad, pos)\n"))
r(OR, ("    while stopflag == 0 and itnum < 20:\n        itnum += 1\n", "    for itnum in range(20):\n        if stopflag:\n            break\n"))
r(OR, ("    while stopflag == 0 and itnum < 20:\n", "    while not stopflag and itnum < 20:\n"), ("        stopflag = True\n        for i in range(6):\n            if abs(beta[i]) > 0.1:\n                stopflag = False\n", "        stopflag = bool(np.all(np.abs(beta) <= 0.1))\n"))
r(OR, ("        cal.ext_par.x0 += beta[0]\n        cal.ext_par.y0 += beta[1]\n        cal.ext_par.z0 += beta[2]\n        cal.ext_par.omega += beta[3]\n        cal.ext_par.phi += beta[4]\n        cal.ext_par.kappa += beta[5]\n\n    cal.update_rotation_matrix()\n", "        for k, name in enumerate((\"x0\", \"y0\", \"z0\", \"omega\", \"phi\", \"kappa\")):\n            cal.increment_attribute(name, beta[k])\n\n    cal.update_rotation_matrix()\n"))
# man_ori, calblock
r(OR, ("    for pnr in range(num_fix):\n        for i in range(4):\n            if pnr == nr[i] - 1:\n                fix4[i] = fix[pnr]\n                num_match += 1\n                break\n        if num_match >= num_fix:\n            break\n", "    for pnr in range(num_fix):\n        for i in range(4):\n            if nr[i] == pnr + 1:\n                num_match += 1\n                fix4[i] = fix[pnr]\n                break\n        if num_match == num_fix:\n            break\n"))
r(OR, ("            parts = line.split()\n            fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])\n", "            fix[i] = [float(p) for p in line.split()[1:4]]\n"))
r(OR, ("            parts = line.split()\n            fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])\n", "            _, x, y, z = line.split()[:4]\n            fix[i] = float(x), float(y), float(z)\n"))
r(OR, ("        nr = [int(x) for x in fpp.read().split()][4 * cam : 4 * cam + 4]\n", "        numbers = fpp.read().split()\n    nr = [int(x) for x in numbers[4 * cam : 4 * (cam + 1)]]\n"))
r(OR, ("    success = raw_orient(cal, cparam, len(ref_pts), ref_pts, targs)\n\n    # free(targs);\n    del targs\n\n    return True if success else False\n", "    return bool(raw_orient(cal, cparam, len(ref_pts), ref_pts, targs))\n"))
# ---- trafo, vec_utils
TR, VE, IM, RT, MM, EP, CA = "trafo.py", "vec_utils.py", "imgcoord.py", "ray_tracing.py", "multimed.py", "epi.py", "calibration.py"
r(TR, ("    x_metric = (x_pixel - float(imx) / 2.0) * pix_x\n    y_metric = (float(imy) / 2.0 - y_pixel) * pix_y\n\n    return (x_metric, y_metric)\n", "    cx, cy = 0.5 * imx, 0.5 * imy\n    return (pix_x * (x_pixel - cx), -pix_y * (y_pixel - cy))\n"))
r(TR, ("    metric = np.empty_like(pixel, dtype=np.float64)\n    metric[:, 0] = (pixel[:, 0] - imx / 2.0) * pix_x\n    metric[:, 1] = (imy / 2.0 - pixel[:, 1]) * pix_y\n", "    metric = np.zeros(pixel.shape)\n    for i in range(len(pixel)):\n        metric[i, 0] = (pixel[i, 0] - imx / 2.0) * pix_x\n        metric[i, 1] = (imy / 2.0 - pixel[i, 1]) * pix_y\n"))
r(TR, ("    pixel = np.zeros_like(metric)\n    pixel[:, 0] = (metric[:, 0] / pix_x) + (imx / 2.0)\n    pixel[:, 1] = (imy / 2.0) - (metric[:, 1] / pix_y)\n\n    return pixel\n", "    pixel = np.empty_like(metric)\n    pixel[:, 1] = imy / 2.0 - metric[:, 1] / pix_y\n    pixel[:, 0] = imx / 2.0 + metric[:, 0] / pix_x\n\n    return pixel\n"))
r(TR, ("    x_pixel = (x_metric / pix_x) + (float(imx) / 2.0)\n    y_pixel = (float(imy) / 2.0) - (y_metric / pix_y)\n\n    return x_pixel, y_pixel\n", "    half_w = imx / 2\n    half_h = imy / 2\n    return half_w + x_metric / pix_x, half_h - y_metric / pix_y\n"))
r(TR, ("    r = np.sqrt(x**2 + y**2)\n\n    dx = (\n        x * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)\n        + ap[3] * (r**2 + 2 * x**2)\n        + 2 * ap[4] * x * y\n    )\n    dy = (\n        y * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)\n        + ap[4] * (r**2 + 2 * y**2)\n        + 2 * ap[3] * x * y\n    )\n    x += dx\n    y += dy\n\n    x1 = ap[5] * x - np.sin(ap[6]) * y\n    y1 = np.cos(ap[6]) * y\n\n    return x1, y1\n",
   "    k1, k2, k3, p1, p2, scx, she = ap\n    r2 = x * x + y * y\n    radial = 1.0 + r2 * (k1 + r2 * (k2 + r2 * k3))\n    xd = x * radial + p1 * (r2 + 2 * x * x) + 2 * p2 * x * y\n    yd = y * radial + p2 * (r2 + 2 * y * y) + 2 * p1 * x * y\n\n    return scx * xd - np.sin(she) * yd, np.cos(she) * yd\n"))
r(TR, ("    if x == 0 and y == 0:\n        return 0, 0\n\n    r = np.sqrt(x**2 + y**2)\n\n    dx", "    r = np.sqrt(x**2 + y**2)\n\n    dx"))
r(TR, ("    while True:\n        r = rq\n        common_term", "    x0 = (x + y / cos_she * sin_she) / ap[5]\n    y0 = y / cos_she\n\n    while True:\n        r = rq\n        common_term"), ("        xq = (\n            (x + y / cos_she * sin_she) / ap[5]\n            - xq_common\n", "        xq = (\n            x0\n            - xq_common\n"), ("        yq = y / cos_she - yq_common - ap[4]", "        yq = y0 - yq_common - ap[4]"), ("    x1 = (\n        (x + y / cos_she * sin_she) / ap[5]\n        - xq * common_term\n", "    x1 = (\n        x0\n        - xq * common_term\n"), ("    y1 = y / cos_she - yq * common_term", "    y1 = y0 - yq * common_term"))
r(TR, ("        itnum += 1\n\n        if itnum >= 201 or np.abs(rq - r) <= tol * r:\n            break\n", "        itnum += 1\n        if itnum > 200:\n            break\n        if abs(r - rq) <= tol * r:\n            break\n"))
r(TR, ("    flat_x += cal.int_par.xh\n    flat_y += cal.int_par.yh\n", "    interior = cal.int_par\n    flat_x, flat_y = flat_x + interior.xh, flat_y + interior.yh\n"))
r(TR, ("    flat_x, flat_y = correct_brown_affine(dist_x, dist_y, cal.added_par, tol)\n    flat_x -= cal.int_par.xh\n    flat_y -= cal.int_par.yh\n    return flat_x, flat_y\n", "    x, y = correct_brown_affine(dist_x, dist_y, cal.added_par, tol)\n    return x - cal.int_par.xh, y - cal.int_par.yh\n"))
r(VE, ("    return np.sqrt(vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[2])\n", "    return np.sqrt(np.dot(vec, vec))\n"))
r(VE, ("    vec = vec1 - vec2\n    return np.sqrt(vec[0] ** 2 + vec[1] ** 2 + vec[2] ** 2)\n", "    return vec_norm(vec_subt(vec2, vec1))\n"))
r(VE, ("    magnitude = vec_norm(vec)\n    if magnitude == 0:\n        return vec  # Avoid division by zero for zero vectors\n    return vec / magnitude\n", "    magnitude = vec_norm(vec)\n    if magnitude > 0:\n        return vec / magnitude\n    return vec\n"))
# ---- imgcoord
r(IM, ("    origin = np.r_[cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0]\n\n    deno = np.dot(dm[:, 2], (pos - origin))\n    if deno == 0:\n        deno = 1\n\n    x = -cal.int_par.cc * np.dot(dm[:, 0], (pos - origin)) / deno\n    y = -cal.int_par.cc * np.dot(dm[:, 1], (pos - origin)) / deno\n\n    return x, y\n", "    ray = pos - np.r_[cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0]\n\n    num_x, num_y, deno = np.dot(dm.T, ray)\n    if deno == 0:\n        deno = 1\n\n    scale = -cal.int_par.cc / deno\n    return scale * num_x, scale * num_y\n"))
r(IM, ("    origin = np.r_[cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0]\n\n    deno = np.dot(dm[:, 2], (pos - origin))\n    if deno == 0:\n        deno = 1\n\n    x = -cal.int_par.cc * np.dot(dm[:, 0], (pos - origin)) / deno\n    y = -cal.int_par.cc * np.dot(dm[:, 1], (pos - origin)) / deno\n", "    dx, dy, dz = pos[0] - cal.ext_par.x0, pos[1] - cal.ext_par.y0, pos[2] - cal.ext_par.z0\n\n    deno = dm[0][2] * dx + dm[1][2] * dy + dm[2][2] * dz\n    if deno == 0:\n        deno = 1\n\n    x = -cal.int_par.cc * (dm[0][0] * dx + dm[1][0] * dy + dm[2][0] * dz) / deno\n    y = -cal.int_par.cc * (dm[0][1] * dx + dm[1][1] * dy + dm[2][1] * dz) / deno\n"))
r(IM, ("    pos_t, cross_p, cross_c, cal_t.ext_par.z0 = trans_cam_point(\n        cal.ext_par, mm, cal.glass_par, orig_pos\n    )\n", "    trans = trans_cam_point(cal.ext_par, mm, cal.glass_par, orig_pos)\n    pos_t, cross_p, cross_c = trans[:3]\n    cal_t.ext_par.z0 = trans[3]\n"))

r(IM, ("    x, y = flat_image_coord(pos, cal, mm)\n", "    flat = flat_image_coord(pos, cal, mm)\n"), ("    x, y = flat_to_dist(x, y, cal)\n", "    x, y = flat_to_dist(*flat, cal)\n"))
r(IM, ("    for i in range(npoints):\n        if orig_pos[i].shape != (3,):\n            raise ValueError(\"orig_pos must be a 3D vector\")\n\n        out[i, 0], out[i, 1] = img_coord(orig_pos[i], cal, mm)\n", "    for i, point in enumerate(orig_pos):\n        if point.shape != (3,):\n            raise ValueError(\"orig_pos must be a 3D vector\")\n\n        out[i] = img_coord(point, cal, mm)\n"))
r(IM, ("    pos_t = np.r_[x_t, y_t, pos_t[2]]\n", "    pos_t[:2] = x_t, y_t\n"))
# ---- ray tracing
r(RT, ("    dist_cam_glass = np.dot(glass_direction, primary_point) - c_param\n    dot_product_start_dir = np.dot(glass_direction, transformed_direction)\n    if dot_product_start_dir == 0.0:\n        dot_product_start_dir = 1e-6  # Avoid division by zero with a small number\n    d1 = -dist_cam_glass / dot_product_start_dir\n", "    dot_product_start_dir = np.dot(transformed_direction, glass_direction)\n    if dot_product_start_dir == 0.0:\n        dot_product_start_dir = 1e-6  # Avoid division by zero with a small number\n    d1 = (c_param - np.dot(primary_point, glass_direction)) / dot_product_start_dir\n"))
r(RT, ("    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1 / refractive_index_medium2\n    n = -np.sqrt(1 - p**2)\n", "    ratio = refractive_index_medium1 / refractive_index_medium2\n    p = ratio * np.sqrt(max(0.0, 1 - n * n))\n    n = -np.sqrt(1 - p * p)\n"))
r(RT, ("    transformed_direction_parallel_scaled = bp * p\n    transformed_direction_perpendicular_scaled = glass_direction * n\n    out = (\n        transformed_direction_parallel_scaled\n        + transformed_direction_perpendicular_scaled\n    )\n\n    return X, out\n", "    return X, p * bp + n * glass_direction\n"))
r(RT, ("    transformed_direction_perpendicular_scaled = (\n        a2 - transformed_direction_perpendicular_scaled\n    )\n    bp = unit_vector(transformed_direction_perpendicular_scaled)\n", "    bp = unit_vector(transformed_direction_parallel_scaled)\n"))
r(RT, ("    abs_dot_product = np.abs(np.dot(glass_direction, a2))\n    if abs_dot_product == 0:\n        abs_dot_product = 1e-6  # Avoid division by zero with a small number\n    d2 = distance_param / abs_dot_product\n\n    a2_scaled = a2 * d2\n    X = Xb + a2_scaled\n", "    depth = abs(np.dot(a2, glass_direction))\n    if depth == 0:\n        depth = 1e-6  # Avoid division by zero with a small number\n    X = Xb + a2 * (distance_param / depth)\n"))
r(RT, ("    primary_point = np.r_[cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0]\n    glass = np.ascontiguousarray(cal.glass_par)\n", "    primary_point = cal.get_pos()\n    glass = np.ascontiguousarray(cal.glass_par)\n"))
r(RT, ("    transformed_direction = distortion_matrix @ unit_vector(initial_ray_direction)\n", "    transformed_direction = np.dot(distortion_matrix, unit_vector(initial_ray_direction))\n"))
# ---- multimed
r(MM, ("    Xq = cal.ext_par.x0 + (pos[0] - cal.ext_par.x0) * radial_shift\n    Yq = cal.ext_par.y0 + (pos[1] - cal.ext_par.y0) * radial_shift\n    return Xq, Yq\n", "    x0, y0 = cal.ext_par.x0, cal.ext_par.y0\n    return radial_shift * (pos[0] - x0) + x0, radial_shift * (pos[1] - y0) + y0\n"))
r(MM, ("    if cal.mmlut_data.shape != (0, 0):\n        # print(\"going into get_mmf_from_mmlut\\n\")\n        mmf = get_mmf_from_mmlut(cal, pos)\n        if mmf > 0:\n            # print(f\"mmf from data = {mmf}\")\n            return mmf\n\n    mmf = fast", "    has_table = cal.mmlut_data.shape != (0, 0)\n    mmf = get_mmf_from_mmlut(cal, pos) if has_table else 0.0\n    if mmf > 0:\n        return mmf\n\n    mmf = fast"))
r(MM, ("    it = 0\n    rdiff = 0.1  # Initialize to enter the loop\n\n    while abs(rdiff) > 0.001 and it < n_iter:\n", "    for it in range(n_iter):\n"), ("        rdiff = r - rbeta\n        rq += rdiff\n        it += 1\n", "        rdiff = r - rbeta\n        rq += rdiff\n        if abs(rdiff) <= 0.001:\n            break\n"))
r(MM, ("        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[:nlay])\n        beta3 = np.arcsin(np.sin(beta1) * n1 / n3)\n\n        rbeta = (\n            (z0 - d[0]) * np.tan(beta1)\n            - zout * np.tan(beta3)\n            + np.sum(d[:nlay] * np.tan(beta2))\n        )\n", "        sin1 = n1 * np.sin(beta1)\n        beta3 = np.arcsin(sin1 / n3)\n        rbeta = (z0 - d[0]) * np.tan(beta1) - zout * np.tan(beta3)\n        for i in range(nlay):\n            rbeta += d[i] * np.tan(np.arcsin(sin1 / n2[i]))\n"))
r(MM, ("    zout = Z + np.sum(d[1:nlay])\n", "    zout = Z\n    for i in range(1, nlay):\n        zout += d[i]\n"))
r(MM, ("    return 1.0 if r == 0 else float(rq / r)\n", "    if r == 0:\n        return 1.0\n    return float(rq / r)\n"))
r(MM, ("    X, Y, Z = pos\n    r = np.linalg.norm(np.array([X - x0, Y - y0]))\n", "    Z = pos[2]\n    r = np.sqrt((pos[0] - x0) ** 2 + (pos[1] - y0) ** 2)\n"))
r(MM, ("    dist_cam_glas = primary_point.dot(glass_dir)\n    dist_cam_glas /= dist_o_glass\n    dist_cam_glas -= dist_o_glass\n    dist_cam_glas -= d\n\n    dist_point_glass = pos.dot(glass_dir)\n    dist_point_glass /= dist_o_glass\n    dist_point_glass -= dist_o_glass\n", "    dist_cam_glas = np.dot(glass_dir, primary_point) / dist_o_glass - dist_o_glass - d\n    dist_point_glass = np.dot(glass_dir, pos) / dist_o_glass - dist_o_glass\n"))
r(MM, ("    renorm_glass = glass_dir * (d / float(dist_o_glass))\n    temp = cross_c - renorm_glass\n    temp = cross_p - temp\n    pos_t = np.array([np.linalg.norm(temp), 0, dist_point_glass])\n", "    after_glass = cross_c - glass_dir * d / dist_o_glass\n    pos_t = np.array([np.linalg.norm(cross_p - after_glass), 0.0, dist_point_glass])\n"))
r(MM, ("    # Calculate the position of the point in the camera coordinate system\n    renorm_glass = glass_direction * (-pos_t[2] / norm_glass_direction)\n    pos = after_glass - renorm_glass\n", "    pos = after_glass + glass_direction * (pos_t[2] / norm_glass_direction)\n"), ("        renorm_temp = temp * (-pos_t[0] / norm_temp)\n        pos = pos - renorm_temp\n", "        pos = pos + pos_t[0] * temp / norm_temp\n"))
r(MM, ("    out = np.zeros(3, dtype=np.float64)\n    dz = direct[2]\n    if dz == 0:\n        dz = 1.0  # avoid division by zero\n\n    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / dz\n    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / dz\n    out[2] = glob_z\n\n    return out\n", "    dz = direct[2]\n    if dz == 0:\n        dz = 1.0  # avoid division by zero\n\n    t = (glob_z - vertex[2]) / dz\n    return np.array([vertex[0] + t * direct[0], vertex[1] + t * direct[1], glob_z])\n"))
r(MM, ("            if xyz_t[2] < z_min_t:\n                z_min_t = xyz_t[2]\n            if xyz_t[2] > z_max_t:\n                z_max_t = xyz_t[2]\n", "            z_min_t = min(z_min_t, xyz_t[2])\n            z_max_t = max(z_max_t, xyz_t[2])\n"), ("            if R > Rmax:\n                Rmax = R\n", "            Rmax = max(R, Rmax)\n"))
r(MM, ("            xyz = move_along_ray(z_min, pos, a)\n            xyz_t, _, _, cal_t.ext_par.z0 = trans_cam_point(\n                cal.ext_par, cpar.mm, cal.glass_par, xyz\n            )\n\n            if xyz_t[2] < z_min_t:\n                z_min_t = xyz_t[2]\n            if xyz_t[2] > z_max_t:\n                z_max_t = xyz_t[2]\n\n            R = vec_norm(\n                np.r_[xyz_t[0] - cal_t.ext_par.x0, xyz_t[1] - cal_t.ext_par.y0, 0]\n            )\n\n            if R > Rmax:\n                Rmax = R\n\n            xyz = move_along_ray(z_max, pos, a)\n            xyz_t, _, _, cal_t.ext_par.z0 = trans_cam_point(\n                cal.ext_par, cpar.mm, cal.glass_par, xyz\n            )\n\n            if xyz_t[2] < z_min_t:\n                z_min_t = xyz_t[2]\n            if xyz_t[2] > z_max_t:\n                z_max_t = xyz_t[2]\n\n            R = vec_norm(\n                np.r_[xyz_t[0] - cal_t.ext_par.x0, xyz_t[1] - cal_t.ext_par.y0, 0]\n            )\n\n            if R > Rmax:\n                Rmax = R\n",
   "            for z in (z_min, z_max):\n                xyz = move_along_ray(z, pos, a)\n                xyz_t, _, _, cal_t.ext_par.z0 = trans_cam_point(\n                    cal.ext_par, cpar.mm, cal.glass_par, xyz\n                )\n\n                if xyz_t[2] < z_min_t:\n                    z_min_t = xyz_t[2]\n                if xyz_t[2] > z_max_t:\n                    z_max_t = xyz_t[2]\n\n                R = vec_norm(\n                    np.r_[xyz_t[0] - cal_t.ext_par.x0, xyz_t[1] - cal_t.ext_par.y0, 0]\n                )\n\n                if R > Rmax:\n                    Rmax = R\n"))
r(MM, ("    for i in range(2):\n        for j in range(2):\n            x, y = pixel_to_metric(xc[i], yc[j], cpar)\n            x, y = dist_to_flat(x, y, cal)\n", "    for corner_x in xc:\n        for corner_y in yc:\n            x, y = pixel_to_metric(corner_x, corner_y, cpar)\n            x, y = dist_to_flat(x, y, cal)\n"))
r(MM, ("            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)\n", "            cal.mmlut_data[i, j] = multimed_r_nlay(cal_t, cpar.mm, xyz)\n"))
r(MM, ("    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)\n    Ri = np.arange(nr) * rw\n    Zi = np.arange(nz) * rw + z_min_t\n\n    for i in range(nr):\n        for j in range(nz):\n            xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]\n            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)\n", "    data = np.zeros((nr, nz))\n    for i in range(nr):\n        for j in range(nz):\n            xyz = np.r_[i * rw + cal_t.ext_par.x0, cal_t.ext_par.y0, j * rw + z_min_t]\n            data[i, j] = multimed_r_nlay(cal_t, cpar.mm, xyz)\n    cal.mmlut_data = data\n"))
r(MM, ("    # the interpolation box needs the next grid line in both directions\n    if ir >= nr - 1:\n        return 0.0\n    if temp[2] < 0 or iz >= nz - 1:\n        return 0.0\n", "    # the interpolation box needs the next grid line in both directions\n    if ir + 1 >= nr or temp[2] < 0 or iz + 1 >= nz:\n        return 0.0\n"))
r(MM, ("    mmf = (\n        data[v4[0]] * (1 - sr) * (1 - sz)\n        + data[v4[1]] * (1 - sr) * sz\n        + data[v4[2]] * sr * (1 - sz)\n        + data[v4[3]] * sr * sz\n    )\n\n    return mmf\n", "    inner = data[v4[0]] + sz * (data[v4[1]] - data[v4[0]])\n    outer = data[v4[2]] + sz * (data[v4[3]] - data[v4[2]])\n    return inner + sr * (outer - inner)\n"))
r(MM, ("    for i in range(4):\n        if v4[i] < 0 or v4[i] >= nr * nz:\n            return 0.0\n", "    if any(v < 0 or v >= nr * nz for v in v4):\n        return 0.0\n"))
r(MM, ("    R = float(np.linalg.norm(np.array([temp[0], temp[1], 0])))\n", "    R = np.hypot(temp[0], temp[1])\n"))
r(MM, ("    z_min = vpar.z_min_lay[0]\n    z_max = vpar.z_max_lay[0]\n\n    if vpar.z_min_lay[1] < z_min:\n        z_min = vpar.z_min_lay[1]\n    if vpar.z_max_lay[1] > z_max:\n        z_max = vpar.z_max_lay[1]\n", "    z_min = min(vpar.z_min_lay[0], vpar.z_min_lay[1])\n    z_max = max(vpar.z_max_lay[0], vpar.z_max_lay[1])\n"))
r(MM, ("                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]\n                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]\n\n                if X > xmax:\n                    xmax = X\n                if X < xmin:\n                    xmin = X\n                if Y > ymax:\n                    ymax = Y\n                if Y < ymin:\n                    ymin = Y\n\n                X = pos[0] + (z_max - pos[2]) * a[0] / a[2]\n                Y = pos[1] + (z_max - pos[2]) * a[1] / a[2]\n\n                if X > xmax:\n                    xmax = X\n                if X < xmin:\n                    xmin = X\n                if Y > ymax:\n                    ymax = Y\n                if Y < ymin:\n                    ymin = Y\n",
   "                for z in (z_min, z_max):\n                    t = (z - pos[2]) / a[2]\n                    X, Y = pos[0] + t * a[0], pos[1] + t * a[1]\n                    xmin, xmax = min(xmin, X), max(xmax, X)\n                    ymin, ymax = min(ymin, Y), max(ymax, Y)\n"))
r(MM, ("                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]\n                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]\n", "                X, Y, _ = move_along_ray(z_min, pos, a)\n"), ("                X = pos[0] + (z_max - pos[2]) * a[0] / a[2]\n                Y = pos[1] + (z_max - pos[2]) * a[1] / a[2]\n", "                X, Y, _ = move_along_ray(z_max, pos, a)\n"))
r(MM, ("    for i_cam in range(cpar.num_cams):\n        for i in range(2):\n            for j in range(2):\n                x, y = pixel_to_metric(xc[i], yc[j], cpar)\n\n                x, y = dist_to_flat(x, y, cal[i_cam])\n\n                pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)\n", "    for i_cam in range(cpar.num_cams):\n        cam = cal[i_cam]\n        for i in range(2):\n            for j in range(2):\n                mx, my = pixel_to_metric(xc[i], yc[j], cpar)\n                pos, a = ray_tracing(*dist_to_flat(mx, my, cam), cam, cpar.mm)\n"))
# ---- epi
r(EP, ("    z_min = vpar.z_min_lay[0] + (pos[0] - vpar.x_lay[0]) * (\n        vpar.z_min_lay[1] - vpar.z_min_lay[0]\n    ) / (vpar.x_lay[1] - vpar.x_lay[0])\n\n    z_max = float(\n        vpar.z_max_lay[0]\n        + (pos[0] - vpar.x_lay[0])\n        * (vpar.z_max_lay[1] - vpar.z_max_lay[0])\n        / (vpar.x_lay[1] - vpar.x_lay[0])\n    )\n", "    part = (pos[0] - vpar.x_lay[0]) / (vpar.x_lay[1] - vpar.x_lay[0])\n    z_min = (1 - part) * vpar.z_min_lay[0] + part * vpar.z_min_lay[1]\n    z_max = (1 - part) * vpar.z_max_lay[0] + part * vpar.z_max_lay[1]\n"))
r(EP, ("    X = move_along_ray(z_min, pos, v)\n    xmin, ymin = flat_image_coord(X, cal2, mmp)\n\n    X = move_along_ray(z_max, pos, v)\n    xmax, ymax = flat_image_coord(X, cal2, mmp)\n\n    return xmin, ymin, xmax, ymax\n", "    ends = []\n    for z in (z_min, z_max):\n        ends.extend(flat_image_coord(move_along_ray(z, pos, v), cal2, mmp))\n    return tuple(ends)\n"))
LAY = "def depth_at(x, lay, x_lay):\n    \"\"\"Interpolate the limit of the volume.\"\"\"\n    return lay[0] + (x - x_lay[0]) * (lay[1] - lay[0]) / (x_lay[1] - x_lay[0])\n\n\n"
r(EP, ("    z_min = vpar.z_min_lay[0] + (pos[0] - vpar.x_lay[0]) * (\n        vpar.z_min_lay[1] - vpar.z_min_lay[0]\n    ) / (vpar.x_lay[1] - vpar.x_lay[0])\n    z_max = vpar.z_max_lay[0] + (pos[0] - vpar.x_lay[0]) * (\n        vpar.z_max_lay[1] - vpar.z_max_lay[0]\n    ) / (vpar.x_lay[1] - vpar.x_lay[0])\n", "    z_min = depth_at(pos[0], vpar.z_min_lay, vpar.x_lay)\n    z_max = depth_at(pos[0], vpar.z_max_lay, vpar.x_lay)\n"), ("def epi_mm_2D(", LAY + "def epi_mm_2D("))
r(EP, ("    for pt_ix, Z in enumerate(\n        np.linspace(vparam.z_min_lay[0], vparam.z_max_lay[0], num_points)\n    ):\n", "    depths = np.linspace(vparam.z_min_lay[0], vparam.z_max_lay[0], num_points)\n    for pt_ix in range(num_points):\n        Z = depths[pt_ix]\n"))
r(EP, ("        line_points[pt_ix, 0], line_points[pt_ix, 1] = metric_to_pixel(x, y, cparam)\n", "        line_points[pt_ix] = metric_to_pixel(x, y, cparam)\n"))
r(EP, ("    x, y = pixel_to_metric(image_point[0], image_point[1], cparam)\n    x, y = dist_to_flat(x, y, origin_cam, 0.00001)\n\n    vertex, direct = ray_tracing(x, y, origin_cam, cparam.mm)\n", "    xm, ym = pixel_to_metric(*image_point, cparam)\n    xf, yf = dist_to_flat(xm, ym, origin_cam)\n\n    vertex, direct = ray_tracing(xf, yf, origin_cam, cparam.mm)\n"))
# ---- calibration
r(CA, ("    dm[0, 0] = cp * ck\n    dm[0, 1] = -cp * sk\n    dm[0, 2] = sp\n    dm[1, 0]", "    dm[0, :] = [cp * ck, -cp * sk, sp]\n    dm[1, 0]"))
r(CA, ("    dm[2, 0] = so * sk - co * sp * ck\n    dm[2, 1] = so * ck + co * sp * sk\n    dm[2, 2] = co * cp\n", "    for j in range(3):\n        dm[2, j] = dm[0, (j + 1) % 3] * dm[1, (j + 2) % 3] - dm[0, (j + 2) % 3] * dm[1, (j + 1) % 3]\n"))
r(CA, ("    omega, phi, kappa = ext[\"omega\"], ext[\"phi\"], ext[\"kappa\"]\n\n    co = np.cos(omega)\n    so = np.sin(omega)\n\n    cp = np.cos(phi)\n    sp = np.sin(phi)\n\n    ck = np.cos(kappa)\n    sk = np.sin(kappa)\n", "    so, co = np.sin(ext[\"omega\"]), np.cos(ext[\"omega\"])\n    sp, cp = np.sin(ext[\"phi\"]), np.cos(ext[\"phi\"])\n    sk, ck = np.sin(ext[\"kappa\"]), np.cos(ext[\"kappa\"])\n"))
r(CA, ("        if hasattr(self.ext_par, attr_name):\n            setattr(\n                self.ext_par,\n                attr_name,\n                getattr(self.ext_par, attr_name) + increment_value,\n            )\n        if hasattr(self.int_par, attr_name):\n            setattr(\n                self.int_par,\n                attr_name,\n                getattr(self.int_par, attr_name) + increment_value,\n            )\n", "        for par in (self.ext_par, self.int_par):\n            if hasattr(par, attr_name):\n                setattr(par, attr_name, getattr(par, attr_name) + increment_value)\n"))
r(CA, ("        self.ext_par[\"omega\"], self.ext_par[\"phi\"], self.ext_par[\"kappa\"] = o_p_k_np\n", "        for name, angle in zip((\"omega\", \"phi\", \"kappa\"), o_p_k_np):\n            self.ext_par[name] = angle\n"))
r(CA, ("        self.ext_par[\"x0\"], self.ext_par[\"y0\"], self.ext_par[\"z0\"] = pos\n", "        self.ext_par.x0 = pos[0]\n        self.ext_par.y0 = pos[1]\n        self.ext_par.z0 = pos[2]\n"))
r(CA, ("        return np.r_[self.ext_par[\"omega\"], self.ext_par[\"phi\"], self.ext_par[\"kappa\"]]\n", "        return np.array([self.ext_par.omega, self.ext_par.phi, self.ext_par.kappa])\n"))
r(CA, ("        ret.set_pos(data[:3])\n", ""), ("        ret.glass_par = data[18:]  # glass position vector from the water side\n", "        ret.glass_par = data[18:]  # glass position vector from the water side\n        ret.set_pos(data[:3])\n"))
r(CA, ("        data = np.fromstring(tmp, dtype=float, sep=\" \")\n", "        data = np.array([float(x) for x in tmp.split()])\n"))
r(CA, ("                addtmp = list(map(float, fp.readline().split()))\n\n                ret.set_radial_distortion(np.array(addtmp[:3]))\n                ret.set_decentering(np.array(addtmp[3:5]))\n                ret.set_affine_distortion(np.array(addtmp[5:]))\n", "                addtmp = np.array([float(x) for x in fp.readline().split()])\n\n            ret.set_radial_distortion(addtmp[:3])\n            ret.set_decentering(addtmp[3:5])\n            ret.set_affine_distortion(addtmp[5:])\n"))
r(CA, ("        for row in ext_par[\"dm\"]:\n            fp.write(f\"{row[0]:.7f} {row[1]:.7f} {row[2]:.7f}\\n\")\n", "        dm = ext_par[\"dm\"]\n        for i in range(3):\n            fp.write(f\"{dm[i][0]:.7f} {dm[i][1]:.7f} {dm[i][2]:.7f}\\n\")\n"))
r(CA, ("        fp.write(\n            f\"{added_par[0]:.8f} {added_par[1]:.8f} {added_par[2]:.8f} \"\n            f\"{added_par[3]:.8f} {added_par[4]:.8f} {added_par[5]:.8f} {added_par[6]:.8f}\\n\"\n        )\n", "        fp.write(\" \".join(f\"{added_par[i]:.8f}\" for i in range(7)) + \"\\n\")\n"))
r(CA, ("        fp.write(f\"{ext_par['x0']:.8f} {ext_par['y0']:.8f} {ext_par['z0']:.8f}\\n\")\n", "        x0, y0, z0 = ext_par[\"x0\"], ext_par[\"y0\"], ext_par[\"z0\"]\n        fp.write(\"%.8f %.8f %.8f\\n\" % (x0, y0, z0))\n"))
r(CA, ("        new_copy.ext_par = self.ext_par.copy()\n        new_copy.int_par = self.int_par.copy()\n        new_copy.glass_par = self.glass_par.copy()\n        new_copy.added_par = self.added_par.copy()\n        new_copy.mmlut = self.mmlut.copy()\n        new_copy.mmlut_data = self.mmlut_data.copy()\n", "        for name in (\"ext_par\", \"int_par\", \"glass_par\", \"added_par\", \"mmlut\", \"mmlut_data\"):\n            setattr(new_copy, name, getattr(self, name).copy())\n"))
r(CA, ("        new_copy.glass_par = self.glass_par.copy()\n        new_copy.added_par = self.added_par.copy()\n", "        new_copy.glass_par = np.array(self.glass_par)\n        new_copy.added_par = np.array(self.added_par)\n"))
r(CA, ("        if ext_par is None:\n            ext_par = copy.deepcopy(Exterior)\n", "        if ext_par is None:\n            ext_par = Exterior.copy()\n"), ("        self.ext_par = ext_par\n        self.int_par = int_par\n        self.glass_par = glass_par\n        self.added_par = added_par\n", "        self.ext_par, self.int_par = ext_par, int_par\n        self.glass_par, self.added_par = glass_par, added_par\n"))
r(CA, ("        return self.added_par[:3].copy()\n", "        return np.array(self.added_par[:3])\n"))
r(CA, ("    return (\n        compare_exterior(c1.ext_par, c2.ext_par)\n        and compare_interior(c1.int_par, c2.int_par)\n        and compare_glass(c1.glass_par, c2.glass_par)\n        and compare_addpar(c1.added_par, c2.added_par)\n    )", "    if not compare_exterior(c1.ext_par, c2.ext_par):\n        return False\n    if not compare_interior(c1.int_par, c2.int_par):\n        return False\n    return compare_glass(c1.glass_par, c2.glass_par) and compare_addpar(\n        c1.added_par, c2.added_par\n    )"))
# ---- frame buffer
TB = "tracking_frame_buf.py"
r(TB, ("        return (\n            self.pnr == __value.pnr  # type: ignore\n            and self.x == __value.x  # type: ignore\n            and self.y == __value.y  # type: ignore\n            and self.n == __value.n  # type: ignore\n            and self.nx == __value.nx  # type: ignore\n            and self.ny == __value.ny  # type: ignore\n            and self.sumg == __value.sumg  # type: ignore\n            and self.tnr == __value.tnr  # type: ignore\n        )\n", "        names = (\"pnr\", \"x\", \"y\", \"n\", \"nx\", \"ny\", \"sumg\", \"tnr\")\n        return all(getattr(self, k) == getattr(__value, k) for k in names)\n"))
r(TB, ("                targ = Target(\n                    pnr=int(line[0]),\n                    x=float(line[1]),\n                    y=float(line[2]),\n                    n=int(line[3]),\n                    nx=int(line[4]),\n                    ny=int(line[5]),\n                    sumg=int(line[6]),\n                    tnr=int(line[7]),\n                )\n\n                buffer.append(targ)\n", "                pnr, x, y, *counts, tnr = line\n                n, nx, ny, sumg = (int(c) for c in counts)\n                buffer.append(Target(int(pnr), float(x), float(y), n, nx, ny, sumg, int(tnr)))\n"))
r(TB, ("                targ = Target(\n                    pnr=int(line[0]),\n                    x=float(line[1]),\n                    y=float(line[2]),\n                    n=int(line[3]),\n                    nx=int(line[4]),\n                    ny=int(line[5]),\n                    sumg=int(line[6]),\n                    tnr=int(line[7]),\n                )\n", "                targ = Target()\n                targ.set_pnr(int(line[0]))\n                targ.set_pos((float(line[1]), float(line[2])))\n                targ.set_pixel_counts(int(line[3]), int(line[4]), int(line[5]))\n                targ.set_sum_grey_value(int(line[6]))\n                targ.tnr = int(line[7])\n"))
r(TB, ("            num_targets = int(file.readline().strip())\n\n            for _ in range(num_targets):\n                line = file.readline().strip().split()\n", "            num_targets = int(file.readline())\n\n            for _ in range(num_targets):\n                line = file.readline().split()\n"))
r(TB, ("    if frame_num > 0:\n        if \"%\" not in file_base:\n            file_base = file_base + \"%05d\"\n        # filename = f\"{file_base}{frame_num:04d}_targets\"\n        fname = file_base % frame_num + \"_targets\"\n    else:\n        fname = f\"{file_base}_targets\"\n", "    if frame_num <= 0:\n        fname = file_base + \"_targets\"\n    else:\n        pattern = file_base if \"%\" in file_base else file_base + \"%05d\"\n        fname = (pattern % frame_num) + \"_targets\"\n"))
r(TB, ("        # Convert targets to a 2D numpy array\n        target_arr = np.array(\n            [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets[:num_targets]]\n        ).reshape(-1, 8)\n        # Save the target array to file using savetxt\n        np.savetxt(\n            file_name,\n            target_arr,\n            fmt=\"%4d %9.4f %9.4f %5d %5d %5d %5d %5d\",\n            header=f\"{num_targets}\",\n            comments=\"\",\n        )\n", "        with open(file_name, \"w\", encoding=\"utf-8\") as out:\n            out.write(f\"{num_targets}\\n\")\n            for t in targets[:num_targets]:\n                out.write(\n                    \"%4d %9.4f %9.4f %5d %5d %5d %5d %5d\\n\"\n                    % (t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr)\n                )\n"))
r(TB, ("            [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets[:num_targets]]\n        ).reshape(-1, 8)\n", "            [\n                (targets[i].pnr, *targets[i].pos(), *targets[i].count_pixels(), targets[i].sumg, targets[i].tnr)\n                for i in range(num_targets)\n            ]\n        ).reshape(-1, 8)\n"))
r(TB, ("        self.decis[self.inlist] = fitness\n        self.linkdecis[self.inlist] = cand\n        self.inlist += 1\n", "        slot = self.inlist\n        self.linkdecis[slot] = cand\n        self.decis[slot] = fitness\n        self.inlist = slot + 1\n"))
r(TB, ("        self.correspond = cor_buf\n        self.path_info = path_buf\n        self.num_parts = len(self.correspond)\n", "        self.correspond, self.path_info = cor_buf, path_buf\n        self.num_parts = len(path_buf)\n"))
r(TB, ("            try:\n                self.targets[cam] = read_targets(target_file_base[cam], frame_num)\n            except IOError:\n                return False\n            self.num_targets[cam] = len(self.targets[cam])\n", "            try:\n                targs = read_targets(target_file_base[cam], frame_num)\n            except IOError:\n                return False\n            self.targets[cam] = targs\n            self.num_targets[cam] = len(targs)\n"))
r(TB, ("        if status == 0:\n            return False\n\n        for cam in range(self.num_cams):\n            status = write_targets(\n                self.targets[cam],\n                self.num_targets[cam],\n                target_file_base[cam],\n                frame_num,\n            )\n\n            if status == 0:\n                return False\n\n        return True\n", "        if not status:\n            return False\n\n        for cam in range(self.num_cams):\n            targs = self.targets[cam]\n            if not write_targets(targs, self.num_targets[cam], target_file_base[cam], frame_num):\n                return False\n\n        return True\n"))
r(TB, ("            if tix == CORRES_NONE:\n                pos2d[pt] = np.nan\n            else:\n                pos2d[pt, 0] = self.targets[cam][tix].x\n                pos2d[pt, 1] = self.targets[cam][tix].y\n", "            if tix != CORRES_NONE:\n                pos2d[pt] = self.targets[cam][tix].pos()\n            else:\n                pos2d[pt] = [np.nan, np.nan]\n"))
r(TB, ("        if read_links:\n            success = frame.read(\n                self.corres_file_base,\n                self.linkage_file_base,\n                self.prio_file_base,\n                self.target_file_base,\n                frame_num,\n            )\n        else:\n            success = frame.read(\n                self.corres_file_base, \"\", \"\", self.target_file_base, frame_num\n            )\n", "        success = frame.read(\n            self.corres_file_base,\n            self.linkage_file_base if read_links else \"\",\n            self.prio_file_base if read_links else \"\",\n            self.target_file_base,\n            frame_num,\n        )\n"))
r(TB, ("    targets = 0\n    while True:\n        line = filein.readline()\n        if not line:\n            break\n", "    for targets, line in enumerate(filein):\n"), ("        # print(cor_buf[targets].nr, cor_buf[targets].p, path_buf[targets].x)\n\n        targets += 1\n", ""))
r(TB, ("        if linkagein is not None:\n            linkage_line = linkagein.readline()\n            linkage_vals = np.fromstring(linkage_line, dtype=float, sep=\" \")\n            path_buf[targets].prev_frame = linkage_vals[0].astype(int)\n            path_buf[targets].next_frame = linkage_vals[1].astype(int)\n", "        if linkagein is not None:\n            prev_frame, next_frame = linkagein.readline().split()[:2]\n            path_buf[targets].prev_frame = int(prev_frame)\n            path_buf[targets].next_frame = int(next_frame)\n"))
r(TB, ("        path_buf[targets].inlist = 0\n        path_buf[targets].finaldecis = 1000000.0\n        path_buf[targets].decis = [0] * POSI  # type: ignore\n        path_buf[targets].linkdecis = [-999] * POSI\n\n        vals = np.fromstring(line, dtype=float, sep=\" \")\n        cor_buf[targets].nr = targets + 1\n        cor_buf[targets].p = vals[-4:].astype(int)\n        path_buf[targets].x = vals[1:-4]\n", "        vals = np.fromstring(line, dtype=float, sep=\" \")\n        cor_buf[targets].nr = targets + 1\n        cor_buf[targets].p = vals[-4:].astype(int)\n\n        path = path_buf[targets]\n        path.x = vals[1:-4]\n        path.inlist = 0\n        path.finaldecis = 1000000.0\n        path.decis = [0] * POSI  # type: ignore\n        path.linkdecis = [-999] * POSI\n"))
r(TB, ("        cor_buf[targets].p = vals[-4:].astype(int)\n        path_buf[targets].x = vals[1:-4]\n", "        for cam in range(4):\n            cor_buf[targets].p[cam] = int(vals[4 + cam])\n        path_buf[targets].x = vals[1:4]\n"))
r(TB, ("            corres_file.write(\n                f\"{pix + 1} {path_buf[pix].x[0]:.3f} \"\n                f\"{path_buf[pix].x[1]:.3f} {path_buf[pix].x[2]:.3f} \"\n                f\"{cor_buf[pix].p[0]} {cor_buf[pix].p[1]} \"\n                f\"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\\n\"\n            )\n", "            x, y, z = path_buf[pix].x\n            p = cor_buf[pix].p\n            corres_file.write(\n                \"%d %.3f %.3f %.3f %d %d %d %d\\n\" % (pix + 1, x, y, z, p[0], p[1], p[2], p[3])\n            )\n"))
r(TB, ("            linkage_file.write(\n                f\"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} \"\n                f\"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} \"\n                f\"{path_buf[pix].x[2]:.3f}\\n\"\n            )\n\n", "            pth = path_buf[pix]\n            pos = \" \".join(f\"{c:.3f}\" for c in pth.x)\n            linkage_file.write(f\"{pth.prev_frame} {pth.next_frame} {pos}\\n\")\n\n"))
r(TB, ("        corres_file = open(corres_fname, \"w\", encoding=\"utf8\")\n        corres_file.write(f\"{num_parts}\\n\")\n\n        linkage_file = open(linkage_fname, \"w\", encoding=\"utf8\")\n        linkage_file.write(f\"{num_parts}\\n\")\n", "        corres_file = open(corres_fname, \"w\", encoding=\"utf8\")\n        linkage_file = open(linkage_fname, \"w\", encoding=\"utf8\")\n        for out in (corres_file, linkage_file):\n            out.write(f\"{num_parts}\\n\")\n"))
r(TB, ("        x, y = pixel_to_metric(targ.x, targ.y, cpar)\n        matched_coords[tnum].x, matched_coords[tnum].y = dist_to_flat(x, y, cal, tol)\n        matched_coords[tnum].pnr = targ.pnr\n\n    matched_coords.sort(order=\"x\")\n\n    return matched_coords\n", "        mc = matched_coords[tnum]\n        mc.pnr = targ.pnr\n        mc.x, mc.y = dist_to_flat(*pixel_to_metric(targ.x, targ.y, cpar), cal, tol)\n\n    return matched_coords[np.argsort(matched_coords.x, kind=\"stable\")]\n"))
r(TB, ("    for pt, mc in enumerate(matched_coords):\n        pos[pt, 0] = mc.x\n        pos[pt, 1] = mc.y\n        pnr[pt] = mc.pnr\n", "    pos[:, 0] = matched_coords.x\n    pos[:, 1] = matched_coords.y\n    pnr[:] = matched_coords.pnr\n"))
r(TB, ("        which = np.flatnonzero(pt.pnr == pnrs)\n        if len(which) > 0:\n            which = which[0]\n            pos[which, 0] = pt.x\n            pos[which, 1] = pt.y\n", "        for which in range(len(pnrs)):\n            if pnrs[which] == pt.pnr:\n                pos[which] = (pt.x, pt.y)\n                break\n"))
r(TB, ("        self.buf.rotate(-1)  # [0,1,2,3]", "        self.buf.append(self.buf.popleft())  # [0,1,2,3]"))
# ---- segmentation
SE = "segmentation.py"
r(SE, ("    if xmin <= 0:\n        xmin = 1\n    if ymin <= 0:\n        ymin = 1\n", "    xmin = max(xmin, 1)\n    ymin = max(ymin, 1)\n"))
r(SE, ("    imx = min(cpar.imx, img.shape[1])\n    imy = min(cpar.imy, img.shape[0])\n    if xmax >= imx:\n        xmax = imx - 1\n    if ymax >= imy:\n        ymax = imy - 1\n", "    rows, cols = img.shape\n    xmax = min(xmax, min(cpar.imx, cols) - 1)\n    ymax = min(ymax, min(cpar.imy, rows) - 1)\n"))
r(SE, ("    pix = fast_targ_rec(\n        img,\n        thres,\n        disco,\n        nnmin,\n        nnmax,\n        nxmin,\n        nxmax,\n        nymin,\n        nymax,\n        sumg_min,\n        xmin,\n        xmax,\n        ymin,\n        ymax,\n    )\n", "    limits = (nnmin, nnmax, nxmin, nxmax, nymin, nymax, sumg_min)\n    pix = fast_targ_rec(img, thres, disco, *limits, xmin, xmax, ymin, ymax)\n"))
r(SE, ("    out = [\n        Target(x=x, y=y, tnr=CORRES_NONE, pnr=pnr, n=numpix, nx=nx, ny=ny, sumg=sumg)\n        for x, y, _, pnr, numpix, nx, ny, sumg in pix\n    ]\n    return out\n", "    out = []\n    for found in pix:\n        x, y, _, pnr, numpix, nx, ny, sumg = found\n        out.append(Target(pnr, x, y, numpix, nx, ny, sumg, CORRES_NONE))\n    return out\n"))
r(SE, ("            if gv > thres:\n                if (\n                    (gv >= img0[i, j - 1])\n                    and (gv >= img0[i, j + 1])\n                    and (gv >= img0[(i - 1), j])\n                    and (gv >= img0[(i + 1), j])\n                    and (gv >= img0[(i - 1), j - 1])\n                    and (gv >= img0[(i + 1), j - 1])\n                    and (gv >= img0[(i - 1), j + 1])\n                    and (gv >= img0[(i + 1), j + 1])\n                ):\n",
       "            if gv > thres:\n                if (\n                    (gv >= img0[(i - 1), j - 1])\n                    and (gv >= img0[(i - 1), j])\n                    and (gv >= img0[(i - 1), j + 1])\n                    and (gv >= img0[i, j - 1])\n                    and (gv >= img0[i, j + 1])\n                    and (gv >= img0[(i + 1), j - 1])\n                    and (gv >= img0[(i + 1), j])\n                    and (gv >= img0[(i + 1), j + 1])\n                ):\n"))
r(SE, ("                    yn = i\n                    xn = j\n\n                    sumg = int(gv)\n                    img0[i, j] = 0\n\n                    xa = xn\n                    xb = xn\n                    ya = yn\n                    yb = yn\n", "                    xa = xb = j\n                    ya = yb = i\n                    sumg = int(gv)\n                    img0[i, j] = 0\n"), ("                    x = (xn) * gv\n                    y = yn * gv\n", "                    x = j * gv\n                    y = i * gv\n"))
r(SE, ("                        x4[0] = waitlist[0][0] - 1\n                        y4[0] = waitlist[0][1]\n                        x4[1] = waitlist[0][0] + 1\n                        y4[1] = waitlist[0][1]\n                        x4[2] = waitlist[0][0]\n                        y4[2] = waitlist[0][1] - 1\n                        x4[3] = waitlist[0][0]\n                        y4[3] = waitlist[0][1] + 1\n",
       "                        xc = waitlist[0][0]\n                        yc = waitlist[0][1]\n                        x4 = [xc - 1, xc + 1, xc, xc]\n                        y4 = [yc, yc, yc - 1, yc + 1]\n"))
r(SE, ("                                if xn < xa:\n                                    xa = xn\n                                if xn > xb:\n                                    xb = xn\n                                if yn < ya:\n                                    ya = yn\n                                if yn > yb:\n                                    yb = yn\n", "                                xa = min(xa, xn)\n                                xb = max(xb, xn)\n                                ya = min(ya, yn)\n                                yb = max(yb, yn)\n"))
r(SE, ("                            if xn >= xmax or yn >= ymax or xn < 0 or yn < 0:\n                                continue\n\n                            gv = img0[yn, xn]\n\n                            if (\n                                (gv > thres)\n                                and (xn > xmin - 1)\n                                and (xn < xmax + 1)\n                                and (yn > ymin - 1)\n                                and (yn < ymax + 1)\n",
       "                            if xn < xmin or xn >= xmax or yn < ymin or yn >= ymax:\n                                continue\n\n                            gv = img0[yn, xn]\n\n                            if (\n                                (gv > thres)\n"))
r(SE, ("                        numpix >= nnmin\n                        and numpix <= nnmax\n                        and nx >= nxmin\n                        and nx <= nxmax\n                        and ny >= nymin\n                        and ny <= nymax\n", "                        nnmin <= numpix <= nnmax\n                        and nxmin <= nx <= nxmax\n                        and nymin <= ny <= nymax\n"))
r(SE, ("                        x /= sumg\n                        x += 0.5\n                        y /= sumg\n                        y += 0.5\n                        pix.append([x, y,", "                        x = x / sumg + 0.5\n                        y = y / sumg + 0.5\n                        pix.append([x, y,"))
r(SE, ("                        pix.append([x, y, CORRES_NONE, n_targets, numpix, nx, ny, sumg])\n                        n_targets += 1\n                        xn = x\n                        yn = y\n", "                        pix.append([x, y, CORRES_NONE, len(pix), numpix, nx, ny, sumg])\n"))
r(SE, ("                    nx = xb - xa + 1\n                    ny = yb - ya + 1\n\n                    if (\n                        numpix >= nnmin\n", "                    nx = 1 + xb - xa\n                    ny = 1 + yb - ya\n                    if sumg <= sumg_min:\n                        continue\n\n                    if (\n                        numpix >= nnmin\n"), ("                        and ny <= nymax\n                        and sumg > sumg_min\n", "                        and ny <= nymax\n"))
r(SE, ("                sumg = int(gv)\n", "                sumg = int(gv)\n"), ("                                # print(f\"gv = {gv} sumg = {sumg}\")\n                                sumg += gv\n", "                                sumg = sumg + gv\n"), ("                        sumg -= numpix * thres\n", "                        sumg = sumg - thres * numpix\n"))
r(SE, ("    if subrange_x is None:\n        xmin, xmax = 0, cparam.imx\n    else:\n        xmin, xmax = subrange_x\n\n    if subrange_y is None:\n        ymin, ymax = 0, cparam.imy\n    else:\n        ymin, ymax = subrange_y\n", "    xmin, xmax = (0, cparam.imx) if subrange_x is None else subrange_x\n    ymin, ymax = (0, cparam.imy) if subrange_y is None else subrange_y\n"))
r(SE, ("    if img.shape[0] < ymax or img.shape[1] < xmax:\n        raise ValueError", "    height, width = img.shape[:2]\n    if ymax > height or xmax > width:\n        raise ValueError"), ("    target_array = targ_rec(img, tpar, xmin, xmax, ymin, ymax, cparam, cam)\n\n    return target_array", "    return targ_rec(\n        img=img, targ_par=tpar, xmin=xmin, xmax=xmax, ymin=ymin, ymax=ymax, cpar=cparam, num_cam=cam\n    )"))
r(SE, ("            if gv <= thres:\n                continue\n\n            # skip already labeled pixel\n            if label_img[n] != 0:\n                continue\n", "            if gv <= thres or label_img[n] != 0:\n                continue\n"))
r(SE, ("            # target coordinates\n            pix.append(Target())\n            pix[n_target].x = 0.5 + peaks[i].x / sumg\n            pix[n_target].y = 0.5 + peaks[i].y / sumg\n\n            # target shape parameters\n            pix[n_target].sumg = sumg\n            pix[n_target].n = peaks[i].n\n            pix[n_target].nx = peaks[i].xmax - peaks[i].xmin + 1\n            pix[n_target].ny = peaks[i].ymax - peaks[i].ymin + 1\n            pix[n_target].tnr = CORRES_NONE\n            pix[n_target].pnr = n_target\n            n_target += 1\n",
       "            pk = peaks[i]\n            pix.append(\n                Target(\n                    pnr=n_target,\n                    x=0.5 + pk.x / sumg,\n                    y=0.5 + pk.y / sumg,\n                    n=pk.n,\n                    nx=pk.xmax - pk.xmin + 1,\n                    ny=pk.ymax - pk.ymin + 1,\n                    sumg=sumg,\n                    tnr=CORRES_NONE,\n                )\n            )\n            n_target += 1\n"))
r(SE, ("    done = False\n\n    if p2 == 0:\n        return\n    if p2 == p1:\n        return\n\n    # check whether p1, p2 are already marked as touching\n    for m in range(tpeak.n_touch):\n        if tpeak.touch[m] == p2:\n            done = True\n\n    # mark touch event\n    if not done:\n        # don't allow for more than 4 touches\n        if tpeak.n_touch > 3:\n            return\n        tpeak.touch.append(p2)\n        tpeak.n_touch += 1\n", "    if p2 in (0, p1) or p2 in tpeak.touch:\n        return\n    if tpeak.n_touch < 4:\n        tpeak.touch.append(p2)\n        tpeak.n_touch += 1\n"))
r(SE, ("            if peaks[i].xmin < peaks[p2].xmin:\n                peaks[p2].xmin = peaks[i].xmin\n            if peaks[i].ymin < peaks[p2].ymin:\n                peaks[p2].ymin = peaks[i].ymin\n", "            peaks[p2].xmin = min(peaks[i].xmin, peaks[p2].xmin)\n            peaks[p2].ymin = min(peaks[i].ymin, peaks[p2].ymin)\n"))
# ---- image processing
IP = "image_processing.py"
r(IP, ("    if img.dtype != np.uint8:\n        raise TypeError(\"Image must be of type uint8\")\n\n    img_lp = ndimage.uniform_filter(\n        img,\n        size=dim_lp * 2 + 1,\n", "    if not img.dtype == np.uint8:\n        raise TypeError(\"Image must be of type uint8\")\n\n    width = 2 * dim_lp + 1\n    img_lp = uniform_filter(\n        img,\n        size=width,\n"))
r(IP, ("    img_hp = img | img_lp\n", "    img_hp = np.bitwise_or(img, img_lp)\n"))
r(IP, ("        img_hp = ndimage.uniform_filter(\n            # img_hp.reshape((cpar.imy, cpar.imx)),\n            img_hp,\n            size=3,\n            mode=\"constant\",\n            cval=0.0,\n        )\n    elif", "        return uniform_filter(img_hp, size=3, mode=\"constant\", cval=0.0)\n\n    if"))
r(IP, ("    elif filter_hp == 2 and filter_file != \"\":\n        try:\n            with open(filter_file, \"r\", encoding=\"utf-8\") as fp:\n                filt = np.array(fp.read().split(), dtype=np.float64).reshape((3, 3))\n        except Exception as exc:\n            raise IOError(f\"Could not open filter file: {filter_file}\") from exc\n", "    elif filter_hp == 2 and filter_file:\n        try:\n            with open(filter_file, encoding=\"utf-8\") as fp:\n                filt = np.array([float(v) for v in fp.read().split()]).reshape(3, 3)\n        except Exception as exc:\n            raise IOError(f\"Could not open filter file: {filter_file}\") from exc\n"))
r(IP, ("    return prepare_image(img=img, dim_lp=dim_lp, filter_hp=filter_hp, filter_file=\"\")\n", "    return prepare_image(img, dim_lp, filter_hp)\n"))
r(IP, ("    img_new[:] = np.where(img1 > img2, img1 - img2, 0)\n", "    brighter = img1 > img2\n    img_new[:] = 0\n    img_new[brighter] = (img1 - img2)[brighter]\n"))
r(IP, ("    img_new = np.where(img_mask == 0, 0, img)\n    return img_new\n", "    return np.where(img_mask != 0, img, 0)\n"))
r(IP, ("    dest = copy.deepcopy(src)\n    return dest\n", "    return np.array(src)\n"))
r(IP, ("    row_accum = uniform_filter(\n        src.reshape((cpar.imy, cpar.imx)),\n        size=n,\n        mode=\"constant\",\n        cval=0,\n    ).reshape(-1)\n    return row_accum\n", "    image = src.reshape((cpar.imy, cpar.imx))\n    return uniform_filter(image, size=n, mode=\"constant\", cval=0).ravel()\n"))
r(IP, ("    kernel = np.ones((3, 3)) / 9\n\n    # Apply", "    kernel = np.full((3, 3), 1 / 9)\n\n    # Apply"))
# ---- parameters
PA = "parameters.py"
r(PA, ("            ret.img_base_name = []\n            for _ in range(num_cams):\n                ret.img_base_name.append(par_file.readline().strip())\n            ret.first = int(par_file.readline().strip())\n", "            ret.img_base_name = [par_file.readline().strip() for _ in range(num_cams)]\n            ret.first = int(par_file.readline())\n"))
r(PA, ("                dvxmin = float(fpp.readline().rstrip())\n                dvxmax = float(fpp.readline().rstrip())\n                dvymin = float(fpp.readline().rstrip())\n                dvymax = float(fpp.readline().rstrip())\n                dvzmin = float(fpp.readline().rstrip())\n                dvzmax = float(fpp.readline().rstrip())\n", "                dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax = (\n                    float(fpp.readline()) for _ in range(6)\n                )\n"))
r(PA, ("        return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)\n", "        ret = cls(dvxmin=dvxmin, dvxmax=dvxmax, dvymin=dvymin, dvymax=dvymax)\n        ret.dvzmin, ret.dvzmax = dvzmin, dvzmax\n        ret.dangle = dangle\n        ret.dacc = dacc\n        ret.add = add\n        return ret\n"))
r(PA, ("    return TrackParTuple(\n        track_par.dvxmin,\n        track_par.dvxmax,\n        track_par.dvymin,\n        track_par.dvymax,\n        track_par.dvzmin,\n        track_par.dvzmax,\n        track_par.dangle,\n        track_par.dacc,\n        track_par.add,\n        track_par.dsumg,\n        track_par.dn,\n        track_par.dnx,\n        track_par.dny,\n    )\n", "    return TrackParTuple(**asdict(track_par))\n"))
r(PA, ("    return TrackParTuple(\n        track_par.dvxmin,\n        track_par.dvxmax,\n        track_par.dvymin,\n        track_par.dvymax,\n        track_par.dvzmin,\n        track_par.dvzmax,\n        track_par.dangle,\n        track_par.dacc,\n        track_par.add,\n        track_par.dsumg,\n        track_par.dn,\n        track_par.dnx,\n        track_par.dny,\n    )\n", "    return TrackParTuple(*(getattr(track_par, name) for name in TrackParTuple._fields))\n"))
r(PA, ("            x_lay.append(float(f.readline()))\n            z_min_lay.append(float(f.readline()))\n            z_max_lay.append(float(f.readline()))\n            x_lay.append(float(f.readline()))\n            z_min_lay.append(float(f.readline()))\n            z_max_lay.append(float(f.readline()))\n", "            for _ in range(2):\n                for lay in (x_lay, z_min_lay, z_max_lay):\n                    lay.append(float(f.readline()))\n"))
r(PA, ("            cnx, cny, cn, csumg, corrmin, eps0 = [float(f.readline()) for _ in range(6)]\n\n        return cls(x_lay, z_min_lay, z_max_lay, cn, cnx, cny, csumg, eps0, corrmin)\n", "            limits = [float(f.readline()) for _ in range(6)]\n\n        return cls(\n            x_lay=x_lay, z_min_lay=z_min_lay, z_max_lay=z_max_lay,\n            cnx=limits[0], cny=limits[1], cn=limits[2],\n            csumg=limits[3], corrmin=limits[4], eps0=limits[5],\n        )\n"))
r(PA, ("            x_lay.append(float(f.readline()))\n            z_min_lay.append(float(f.readline()))\n            z_max_lay.append(float(f.readline()))\n            x_lay.append(float(f.readline()))\n            z_min_lay.append(float(f.readline()))\n            z_max_lay.append(float(f.readline()))\n            cnx, cny, cn, csumg, corrmin, eps0 = [float(f.readline()) for _ in range(6)]\n", "            vals = [float(line) for line in f][:12]\n\n        x_lay = [vals[0], vals[3]]\n        z_min_lay = [vals[1], vals[4]]\n        z_max_lay = [vals[2], vals[5]]\n        cnx, cny, cn, csumg, corrmin, eps0 = vals[6:]\n"))
r(PA, ("            for _ in range(ret.num_cams):\n                ret.img_base_name.append(par_file.readline().strip())\n                ret.cal_img_base_name.append(par_file.readline().strip())\n\n", "            names = [par_file.readline().strip() for _ in range(2 * ret.num_cams)]\n            ret.img_base_name = names[0::2]\n            ret.cal_img_base_name = names[1::2]\n\n"))
r(PA, ("            ret.imx = int(par_file.readline().strip())\n            ret.imy = int(par_file.readline().strip())\n            ret.pix_x = float(par_file.readline().strip())\n            ret.pix_y = float(par_file.readline().strip())\n", "            ret.set_image_size((int(par_file.readline()), int(par_file.readline())))\n            ret.set_pixel_size((float(par_file.readline()), float(par_file.readline())))\n"))
r(PA, ("            ret.mm.n1 = float(par_file.readline().strip())\n            ret.mm.n2[0] = float(par_file.readline().strip())\n            ret.mm.n3 = float(par_file.readline().strip())\n            ret.mm.d[0] = float(par_file.readline().strip())\n", "            n1, n2, n3, d = [float(par_file.readline()) for _ in range(4)]\n            ret.mm = MultimediaPar(nlay=1, n1=n1, n2=[n2], d=[d], n3=n3)\n"))
r(PA, ("                for _ in range(TR_MAX_CAMS):  # todo - make it no. cameras\n                    ret.gvthresh.append(int(file.readline()))\n", "                ret.gvthresh = [int(file.readline()) for _ in range(TR_MAX_CAMS)]\n"))
r(PA, ("                ret.discont = int(file.readline())\n                ret.nnmin = int(file.readline())\n                ret.nnmax = int(file.readline())\n                ret.nxmin = int(file.readline())\n                ret.nxmax = int(file.readline())\n                ret.nymin = int(file.readline())\n                ret.nymax = int(file.readline())\n                ret.sumg_min = int(file.readline())\n                ret.cr_sz = int(file.readline())\n", "                for name in (\"discont\", \"nnmin\", \"nnmax\", \"nxmin\", \"nxmax\", \"nymin\", \"nymax\", \"sumg_min\", \"cr_sz\"):\n                    setattr(ret, name, int(file.readline()))\n"))
r(PA, ("        control_par_dict = asdict(data)\n        if isinstance(control_par_dict[\"mm\"], MultimediaPar):\n            control_par_dict[\"mm\"] = asdict(control_par_dict[\"mm\"])\n        return control_par_dict\n", "        return asdict(data)\n"))
r(PA, ("    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.n2), list(mm_np1.d)) == (\n        mm_np2.nlay,\n        mm_np2.n1,\n        mm_np2.n3,\n        list(mm_np2.n2),\n        list(mm_np2.d),\n    )\n", "    return (\n        mm_np1.nlay == mm_np2.nlay\n        and mm_np1.n1 == mm_np2.n1\n        and mm_np1.n3 == mm_np2.n3\n        and list(mm_np1.n2) == list(mm_np2.n2)\n        and list(mm_np1.d) == list(mm_np2.d)\n    )\n"))
r(PA, ("    return all(getattr(t1, field) == getattr(t2, field) for field in t1.__annotations__)\n", "    for name in t1.__annotations__:\n        if getattr(t1, name) != getattr(t2, name):\n            return False\n    return True\n"))
r(PA, ("        if len(refr_index) != len(thickness):\n            raise ValueError(\"Lengths of refractive index and thickness must be equal.\")\n        else:\n            self.n2 = list(refr_index)\n            self.d = list(thickness)\n            self.nlay = len(refr_index)\n", "        n2, d = list(refr_index), list(thickness)\n        if len(n2) != len(d):\n            raise ValueError(\"Lengths of refractive index and thickness must be equal.\")\n        self.n2, self.d, self.nlay = n2, d, len(n2)\n"))
r(PA, ("            tmp = [file.readline().strip() for _ in range(num_cams * 2)]\n            # img_ori0 = [file.readline().strip() for _ in range(4)]\n            img_name = tmp[0::2]\n            img_ori0 = tmp[1::2]\n", "            img_name, img_ori0 = [], []\n            for _ in range(num_cams):\n                img_name.append(file.readline().strip())\n                img_ori0.append(file.readline().strip())\n"))
r(PA, ("            num_planes = int(file.readline().strip())\n            filename = [file.readline().strip() for _ in range(num_planes)]\n", "            num_planes = int(file.readline())\n            filename = []\n            while len(filename) < num_planes:\n                filename.append(file.readline().strip())\n"))
r(PA, ("                ret.k1flag = int(file.readline().strip())\n                ret.k2flag = int(file.readline().strip())\n                ret.k3flag = int(file.readline().strip())\n", "                ret.k1flag, ret.k2flag, ret.k3flag = [int(file.readline()) for _ in range(3)]\n"))
r(PA, ("        return (self.nnmin, self.nnmax)\n", "        bounds = self.nnmin, self.nnmax\n        return bounds\n"), ("        return list(self.n2)\n", "        return [n for n in self.n2]\n"))
r(PA, ("    def set_img_base_name(self, new_name: List[str]):\n        \"\"\"Set the image base name for each camera.\"\"\"\n        self.img_base_name[:] = new_name\n", "    def set_img_base_name(self, new_name: List[str]):\n        \"\"\"Set the image base name for each camera.\"\"\"\n        self.img_base_name = list(new_name)\n"))
# ---- tracking_run
TR = "tracking_run.py"
r(TR, ("        self.lmax = math.sqrt(\n            (tpar.dvxmin - tpar.dvxmax) ** 2\n            + (tpar.dvymin - tpar.dvymax) ** 2\n            + (tpar.dvzmin - tpar.dvzmax) ** 2\n        )\n", "        spans = (\n            tpar.dvxmax - tpar.dvxmin,\n            tpar.dvymax - tpar.dvymin,\n            tpar.dvzmax - tpar.dvzmin,\n        )\n        self.lmax = math.sqrt(sum(s * s for s in spans))\n"))
r(TR, ("        (\n            vpar.x_lay[1],\n            vpar.x_lay[0],\n            self.ymax,\n            self.ymin,\n            vpar.z_max_lay[1],\n            vpar.z_min_lay[0],\n        ) = volumedimension(\n", "        extent = volumedimension(\n"), ("            cpar,\n            cal,\n        )\n\n        self.npart = 0\n", "            cpar,\n            cal,\n        )\n        vpar.x_lay[1], vpar.x_lay[0] = extent[0], extent[1]\n        self.ymax, self.ymin = extent[2], extent[3]\n        vpar.z_max_lay[1], vpar.z_min_lay[0] = extent[4], extent[5]\n\n        self.npart = 0\n"))
r(TR, ("    tr = TrackingRun(\n        seq_par,\n        tpar,\n        vpar,\n        cpar,\n        buf_len,\n        max_targets,\n        corres_file_base,\n        linkage_file_base,\n        prio_file_base,\n        cal,\n        flatten_tol,\n    )\n\n    return tr\n", "    return TrackingRun(\n        seq_par=seq_par,\n        tpar=tpar,\n        vpar=vpar,\n        cpar=cpar,\n        buf_len=buf_len,\n        max_targets=max_targets,\n        corres_file_base=corres_file_base,\n        linkage_file_base=linkage_file_base,\n        prio_file_base=prio_file_base,\n        cal=cal,\n        flatten_tol=flatten_tol,\n    )\n"))
# ================ second battery: helpers extracted, loops rewritten, statements reordered
TK2 = "track.py"
TOP = "def trackcorr_c_loop(run_info, step):\n"
FIN = "            curr_path_inf.finaldecis = curr_path_inf.decis[0]\n            curr_path_inf.next_frame = curr_path_inf.linkdecis[0]\n"
S = open("/repo/openptv_python/track.py").read()


def cut(a, b, s=S, n=1):
    i = -1
    for _ in range(n):
        i = s.find(a, i + 1)
    assert i >= 0, a
    j = s.find(b, i)
    assert j >= 0, b
    return s[i:j]


import textwrap
SORTL = cut("    # sort decis and give preliminary", "    # create links with decision check")
LINKL = cut("    # create links with decision check", "    # end of creation of links")
# the sorting and the linking loops move into functions
r(TK2, (SORTL, "    _sort_decisions(fb.buf[1])\n\n"), (TOP, "def _sort_decisions(frame):\n    \"\"\"Sort the candidates of each particle.\"\"\"\n    for particle in frame.path_info[: frame.num_parts]:\n        if particle.inlist <= 0:\n            continue\n        particle.decis, particle.linkdecis = sort(particle.inlist, particle.decis, particle.linkdecis)\n        particle.finaldecis = particle.decis[0]\n        particle.next_frame = particle.linkdecis[0]\n\n\n" + TOP))
r(TK2, (LINKL, "    count1 = _create_links(fb)\n\n"), (TOP, "def _create_links(fb):\n    \"\"\"Create links with decision check.\"\"\"\n    count1 = 0\n" + LINKL.split("\n", 1)[1] + "    return count1\n\n\n" + TOP))
r(TK2, (LINKL, '''    current, following = fb.buf[1].path_info, fb.buf[2].path_info
    for h in range(fb.buf[1].num_parts):
        mine = current[h]
        if mine.inlist > 0:
            target = following[mine.next_frame]
            rival = target.prev_frame
            if rival != PREV_NONE and current[rival].finaldecis <= mine.finaldecis:
                mine.next_frame = NEXT_NONE
            else:
                if rival != PREV_NONE:
                    current[rival].next_frame = NEXT_NONE
                target.prev_frame = h
        if mine.next_frame != NEXT_NONE:
            count1 += 1

'''))
# the quality of a link in one function
QUAL = "def _link_quality(dl, acc, angle, run_info, quali):\n    \"\"\"Cost of a link: shorter, smoother and more often seen is better.\"\"\"\n    tpar = run_info.tpar\n    return (dl / run_info.lmax + acc / tpar.dacc + angle / tpar.dangle) / quali\n\n\n"
r(TK2, ("                            rr = (\n                                dl / run_info.lmax\n                                + acc / tpar.dacc\n                                + angle / tpar.dangle\n                            ) / quali\n                            curr_path_inf.register_link_candidate(rr, w[mm].ftnr)\n", "                            curr_path_inf.register_link_candidate(\n                                _link_quality(dl, acc, angle, run_info, quali), w[mm].ftnr\n                            )\n"), (TOP, QUAL + TOP))
r(TK2, ("                        rr = (\n                            dl / run_info.lmax + acc / tpar.dacc + angle / tpar.dangle\n                        ) / quali\n\n", "                        rr = _link_quality(dl, acc, angle, run_info, quali)\n\n"), (TOP, QUAL + TOP))
SMOOTH = "def _smooth(acc, angle, tpar):\n    \"\"\"Tell whether the limits on acceleration and angle are kept.\"\"\"\n    if acc < tpar.dacc / 10:\n        return True\n    return acc < tpar.dacc and angle < tpar.dangle\n\n\n"
r(TK2, ("                        if (\n                            acc < tpar.dacc\n                            and angle < tpar.dangle\n                            or acc < tpar.dacc / 10\n                        ):\n                            dl = (\n                                vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[4], X[3])", "                        if _smooth(acc, angle, tpar):\n                            dl = (\n                                vec_diff_norm(X[1], X[3]) + vec_diff_norm(X[4], X[3])"), (TOP, SMOOTH + TOP))
r(TK2, ("                    if acc < tpar.dacc and angle < tpar.dangle or acc < tpar.dacc / 10:\n", "                    if not _smooth(acc, angle, tpar):\n                        pass\n                    else:\n"), (TOP, SMOOTH + TOP))
r(TK2, ("                    angle, acc = angle_acc(X[1], X[2], X[3])\n                    if (acc < tpar.dacc and angle < tpar.dangle) or (\n                        acc < tpar.dacc / 10\n                    ):\n                        quali = w[mm].freq\n", "                    limits = angle_acc(X[1], X[2], X[3])\n                    angle, acc = limits[0], limits[1]\n                    if acc < tpar.dacc / 10 or (angle < tpar.dangle and acc < tpar.dacc):\n                        quali = w[mm].freq\n"))
# the search in the frame after the next as a for loop
r(TK2, ("                kk = 0\n                while (\n                    wn[kk].ftnr != TR_UNUSED and len(fb.buf[3].path_info) > wn[kk].ftnr\n                ):\n", "                for kk in range(len(wn)):\n                    if wn[kk].ftnr == TR_UNUSED or wn[kk].ftnr >= len(fb.buf[3].path_info):\n                        break\n"), ("                    kk += 1  # End of searching 2nd-frame candidates.\n", ""))
r(TK2, ("                kk = 0\n                while (\n                    wn[kk].ftnr != TR_UNUSED and len(fb.buf[3].path_info) > wn[kk].ftnr\n                ):\n", "                for after in wn:\n                    if after.ftnr == TR_UNUSED or after.ftnr >= len(fb.buf[3].path_info):\n                        break\n"), ("                    ref_path_inf = fb.buf[3].path_info[wn[kk].ftnr]\n", "                    ref_path_inf = fb.buf[3].path_info[after.ftnr]\n"), ("                        quali = wn[kk].freq + w[mm].freq\n", "                        quali = after.freq + w[mm].freq\n"), ("                    kk += 1  # End of searching 2nd-frame candidates.\n", ""))
# projection of the centre
PROJ = "def _project(point, run_info, out):\n    \"\"\"Project a point into all cameras.\"\"\"\n    for cam in range(run_info.fb.num_cams):\n        out[cam] = point_to_pixel(point, run_info.cal[cam], run_info.cpar)\n\n\n"
r(TK2, ("            for j in range(fb.num_cams):\n                v1[j] = point_to_pixel(X[5], cal[j], cpar)\n", "            _project(X[5], run_info, v1)\n"), (TOP, PROJ + TOP))
r(TK2, ("            for j in range(fb.num_cams):\n                n[j] = point_to_pixel(X[2], cal[j], cpar)\n", "            _project(X[2], run_info, n)\n"), (TOP, PROJ + TOP))
r(TK2, ("                if curr_corres.p[j] == CORRES_NONE:\n                    v1[j] = point_to_pixel(X[2], cal[j], cpar)\n                else:\n                    _ix = curr_corres.p[j]\n                    v1[j] = np.r_[curr_targets[j][_ix].x, curr_targets[j][_ix].y]\n", "                _ix = curr_corres.p[j]\n                if _ix != CORRES_NONE:\n                    seen = curr_targets[j][_ix]\n                    v1[j] = [seen.x, seen.y]\n                    continue\n                v1[j] = point_to_pixel(X[2], cal[j], cpar)\n"))
# early continue instead of nesting
r(TK2, ("            if tpar.add:\n                if curr_path_inf.inlist == 0:\n                    quali, v2, philf = assess_new_position(X[2], fb.buf[2], run_info)\n                    if quali >= 2:\n", "            if tpar.add and curr_path_inf.inlist == 0:\n                if True:\n                    quali, v2, philf = assess_new_position(X[2], fb.buf[2], run_info)\n                    if not quali < 2:\n"))
r(TK2, ("                if ref_path_inf.prev_frame == PREV_NONE\n", "                if ref_path_inf.prev_frame == PREV_NONE\n") if False else ("                if (\n                    ref_path_inf.prev_frame == PREV_NONE\n                    and ref_path_inf.next_frame == NEXT_NONE\n                ):\n                    curr_path_inf.finaldecis = curr_path_inf.decis[0]\n                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n                    fb.buf[2].path_info[curr_path_inf.prev_frame].next_frame = h\n                    num_added += 1\n\n                if (\n                    ref_path_inf.prev_frame != PREV_NONE\n                    and ref_path_inf.next_frame == NEXT_NONE\n                ):\n",
       "                if ref_path_inf.next_frame != NEXT_NONE:\n                    pass\n                elif ref_path_inf.prev_frame == PREV_NONE:\n                    curr_path_inf.finaldecis = curr_path_inf.decis[0]\n                    curr_path_inf.prev_frame = curr_path_inf.linkdecis[0]\n                    ref_path_inf.next_frame = h\n                    num_added += 1\n                else:\n"))
r(TK2, ("                    X[0] = vec_copy(\n                        fb.buf[0].path_info[curr_path_inf.next_frame].x,\n                    )\n                    X[1] = vec_copy(curr_path_inf.x)\n                    X[3] = vec_copy(ref_path_inf.x)\n                    X[4] = vec_copy(fb.buf[3].path_info[ref_path_inf.prev_frame].x)\n\n                    for j in range(3):\n                        X[5][j] = 0.5 * (5.0 * X[3][j] - 4.0 * X[1][j] + X[0][j])\n\n                    angle, acc = angle_acc(X[3], X[4], X[5])\n",
       "                    newer = fb.buf[0].path_info[curr_path_inf.next_frame].x\n                    here = curr_path_inf.x\n                    older = ref_path_inf.x\n                    oldest = fb.buf[3].path_info[ref_path_inf.prev_frame].x\n                    expected = 0.5 * (5.0 * older - 4.0 * here + newer)\n\n                    angle, acc = angle_acc(older, oldest, expected)\n"))
# frames
r(TK2, ("    if step < run_info.seq_par.last - 2:\n        fb.read_frame_at_end(step + 3, False)\n    else:\n        # no frame follows the last one: do not keep a past frame in its place\n        fb.buf[-1] = Frame(fb.num_cams, fb.buf[-1].max_targets)\n", "    last = run_info.seq_par.last\n    if step + 3 > last:\n        # no frame follows the last one: do not keep a past frame in its place\n        fb.buf[-1] = Frame(fb.num_cams, fb.buf[-1].max_targets)\n        return\n    fb.read_frame_at_end(step + 3, False)\n"))
r(TK2, ("    for step in range(tr.seq_par.first, tr.seq_par.first + TR_BUFSPACE - 1):\n        tr.fb.read_frame_at_end(step)\n        tr.fb.fb_next()\n", "    first = tr.seq_par.first\n    for k in range(TR_BUFSPACE - 1):\n        tr.fb.read_frame_at_end(first + k)\n        tr.fb.fb_next()\n"))
r(TK2, ("    for step in range(seq_par.last - 1, seq_par.first, -1):\n", "    for step in reversed(range(seq_par.first + 1, seq_par.last)):\n"))
# the candidates
CSP = cut("        for j in range(j0, num_targets):\n            if next_frame[j].tnr != -1:\n", "        p[0] = p1\n")
r(TK2, (CSP, '''        nearest = [p1, p2, p3, p4]
        dists = [d1, d2, d3, d4]
        for j in range(j0, num_targets):
            if next_frame[j].tnr == TR_UNUSED:
                continue
            if next_frame[j].y > ymax:
                break
            if not (xmin < next_frame[j].x < xmax and ymin < next_frame[j].y < ymax):
                continue
            d = np.sqrt((cent_x - next_frame[j].x) ** 2 + (cent_y - next_frame[j].y) ** 2)
            for k in range(4):
                if d < dists[k] and (k == 0 or d > dists[k - 1]):
                    dists.insert(k, d)
                    nearest.insert(k, j)
                    dists.pop()
                    nearest.pop()
                    break
        p1, p2, p3, p4 = nearest

'''))
r(TK2, ("            if next_frame[j].tnr == TR_UNUSED:\n                if next_frame[j].y > ymax:\n                    break  # finish search\n                if xmin < next_frame[j].x < xmax and ymin < next_frame[j].y < ymax:\n                    d = np.sqrt(\n                        (cent_x - next_frame[j].x) ** 2\n                        + (cent_y - next_frame[j].y) ** 2\n                    )\n                    if d < dmin:\n                        dmin = d\n                        p[0] = j\n",
       "            cand = next_frame[j]\n            if cand.tnr != TR_UNUSED:\n                continue\n            if cand.y > ymax:\n                break  # finish search\n            inside = xmin < cand.x < xmax and ymin < cand.y < ymax\n            if not inside:\n                continue\n            d = np.hypot(cent_x - cand.x, cent_y - cand.y)\n            if d >= dmin:\n                continue\n            dmin = d\n            p[0] = j\n"))
r(TK2, ("        j0 = num_targets // 2\n        dj = num_targets // 4\n        while dj > 1:\n            if next_frame[j0].y < ymin:\n                j0 += dj\n            else:\n                j0 -= dj\n            dj //= 2\n\n        j0 -= 12\n        if j0 < 0:\n            j0 = 0\n", "        j0 = _search_start(next_frame, num_targets, ymin)\n"), ("def candsearch_in_pix(\n", "def _search_start(targets, num_targets, ymin):\n    \"\"\"Find a start for the search in targets sorted by y.\"\"\"\n    j0 = num_targets // 2\n    dj = num_targets // 4\n    while dj > 1:\n        if targets[j0].y < ymin:\n            j0 += dj\n        else:\n            j0 -= dj\n        dj //= 2\n    return max(j0 - 12, 0)\n\n\ndef candsearch_in_pix(\n"))
r(TK2, ("    for cand_idx in range(MAX_CANDS):\n        # Set default value for unused foundpix objects\n        if all_cands[cand_idx] == TR_UNUSED:\n            reg[cand_idx].ftnr = TR_UNUSED\n        else:\n            # Register candidate data in the foundpix object\n            reg[cand_idx].whichcam[cam] = 1\n            reg[cand_idx].ftnr = targets[all_cands[cand_idx]].tnr\n", "    for slot, cand in zip(reg, all_cands):\n        if cand == TR_UNUSED:\n            slot.ftnr = TR_UNUSED\n            continue\n        slot.ftnr = targets[cand].tnr\n        slot.whichcam[cam] = 1\n"))
r(TK2, ("    for i in range(arr_len):\n        arr[i][\"ftnr\"] = TR_UNUSED\n        arr[i][\"freq\"] = 0\n        for j in range(num_cams):\n            # Set default values for unused foundpix objects\n            arr[i][\"whichcam\"][j] = 0\n", "    arr[\"ftnr\"][:arr_len] = TR_UNUSED\n    arr[\"freq\"][:arr_len] = 0\n    arr[\"whichcam\"][:arr_len, :num_cams] = 0\n"))
# searchquader
r(TK2, ("    for pt in range(8):\n        quader[pt] = point.copy()\n        # print(f\" pt {pt} {quader[pt]}\")\n        for dim in range(3):\n            if pt & (1 << dim):\n                quader[pt][dim] += maxes[dim]\n            else:\n                quader[pt][dim] += mins[dim]\n", "    for pt in range(8):\n        for dim in range(3):\n            shift = maxes[dim] if pt & (1 << dim) else mins[dim]\n            quader[pt][dim] = point[dim] + shift\n"))
r(TK2, ("            if corner[0] < xl[i]:\n                xl[i] = corner[0]\n            if corner[1] < yu[i]:\n                yu[i] = corner[1]\n            if corner[0] > xr[i]:\n                xr[i] = corner[0]\n            if corner[1] > yd[i]:\n                yd[i] = corner[1]\n", "            cx, cy = corner\n            xl[i], xr[i] = min(xl[i], cx), max(xr[i], cx)\n            yu[i], yd[i] = min(yu[i], cy), max(yd[i], cy)\n"))
r(TK2, ("        if xl[i] < 0:\n            xl[i] = 0\n        if yu[i] < 0:\n            yu[i] = 0\n        if xr[i] > cpar.imx:\n            xr[i] = cpar.imx\n        if yd[i] > cpar.imy:\n            yd[i] = cpar.imy\n", ""), ("        xr[i] = xr[i] - center[0]\n        xl[i] = center[0] - xl[i]\n        yd[i] = yd[i] - center[1]\n        yu[i] = center[1] - yu[i]\n", "        xr[i] = min(xr[i], cpar.imx) - center[0]\n        xl[i] = center[0] - max(xl[i], 0)\n        yd[i] = min(yd[i], cpar.imy) - center[1]\n        yu[i] = center[1] - max(yu[i], 0)\n"))
# new particles
r(TK2, ("    ref_path_inf.x = vec_copy(pos)\n    ref_path_inf.reset_links()\n\n    ref_targets = frm.targets\n\n    for cam in range(frm.num_cams):\n        ref_corres.p[cam] = CORRES_NONE\n\n        # We always take the 1st candidate, apparently. Why did we fetch 4?\n        if cand_inds[cam][0] != TR_UNUSED:\n            _ix = cand_inds[cam][0]\n            ref_targets[cam][_ix].tnr = num_parts\n            ref_corres.p[cam] = _ix\n            ref_corres.nr = num_parts\n\n    frm.num_parts += 1\n", "    frm.num_parts = num_parts + 1\n    ref_path_inf.reset_links()\n    ref_path_inf.x = pos.copy()\n\n    for cam, targets in zip(range(frm.num_cams), frm.targets):\n        _ix = cand_inds[cam][0]\n        if _ix == TR_UNUSED:\n            ref_corres.p[cam] = CORRES_NONE\n        else:\n            targets[_ix].tnr = num_parts\n            ref_corres.p[cam] = _ix\n            ref_corres.nr = num_parts\n"))
r(TK2, ("    valid_cams = 0\n\n    for cam in range(run.cpar.num_cams):\n        if (targ_pos[cam][0] != COORD_UNUSED) and (targ_pos[cam][1] != COORD_UNUSED):\n            # Convert pixel coordinates to metric coordinates\n            x, y = pixel_to_metric(targ_pos[cam][0], targ_pos[cam][1], run.cpar)\n\n            # Apply additional transformations\n            targ_pos[cam][0], targ_pos[cam][1] = dist_to_flat(\n                x, y, run.cal[cam], run.flatten_tol\n            )\n\n            valid_cams += 1\n", "    seen = [\n        cam\n        for cam in range(run.cpar.num_cams)\n        if targ_pos[cam][0] != COORD_UNUSED and targ_pos[cam][1] != COORD_UNUSED\n    ]\n    for cam in seen:\n        x, y = pixel_to_metric(targ_pos[cam][0], targ_pos[cam][1], run.cpar)\n        targ_pos[cam] = dist_to_flat(x, y, run.cal[cam], run.flatten_tol)\n    valid_cams = len(seen)\n"))
r(TK2, ("        if num_cands > 0:\n            _ix = cand_inds[cam][0]  # first nearest neighbour\n            targ_pos[cam][0] = frm.targets[cam][_ix].x\n            targ_pos[cam][1] = frm.targets[cam][_ix].y\n\n    valid_cams = 0\n\n    for cam in range(run.cpar.num_cams):\n        if (targ_pos[cam][0] != COORD_UNUSED) and (targ_pos[cam][1] != COORD_UNUSED):\n            # Convert pixel coordinates to metric coordinates\n            x, y = pixel_to_metric(targ_pos[cam][0], targ_pos[cam][1], run.cpar)\n\n            # Apply additional transformations\n            targ_pos[cam][0], targ_pos[cam][1] = dist_to_flat(\n                x, y, run.cal[cam], run.flatten_tol\n            )\n\n            valid_cams += 1\n",
       "        if num_cands <= 0:\n            continue\n        best = frm.targets[cam][cand_inds[cam][0]]\n        x, y = pixel_to_metric(best.x, best.y, run.cpar)\n        targ_pos[cam] = dist_to_flat(x, y, run.cal[cam], run.flatten_tol)\n        valid_cams += 1\n"), ("    left, right, up, down = ADD_PART, ADD_PART, ADD_PART, ADD_PART\n", "    left, right, up, down = ADD_PART, ADD_PART, ADD_PART, ADD_PART\n    valid_cams = 0\n"))
# frequencies
r(TK2, ("    for i in range(num_cams * MAX_CANDS):\n        if foundpix[i].freq != 0:\n            different += 1\n\n    return different\n", "    return sum(1 for i in range(num_cams * MAX_CANDS) if foundpix[i].freq != 0)\n"))
VOL = "def _in_volume(point, run_info):\n    \"\"\"Tell whether a point lies in the observed volume.\"\"\"\n    x, y, z = point\n    vpar = run_info.vpar\n    return (\n        vpar.x_lay[0] < x < vpar.x_lay[1]\n        and run_info.ymin < y < run_info.ymax\n        and vpar.z_min_lay[0] < z < vpar.z_max_lay[1]\n    )\n\n\n"
r(TK2, ("                in_volume = 0  # inside volume\n\n", ""), (cut("                # volume check\n                if (\n                    vpar.x_lay[0] < X[4][0]", "                diff_pos = vec_subt(X[4], X[3])\n                # print(f\"second"), ""), ("                if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):\n", "                if _in_volume(X[4], run_info) and pos3d_in_bounds(diff_pos, tpar):\n"), (TOP, VOL + TOP))
r(TK2, ("                        in_volume = 0\n\n                        _, X[3] =", "                        _, X[3] ="), (cut("                        # volume check\n                        if (\n                            vpar.x_lay[0] < X[3][0] < vpar.x_lay[1]", "                        diff_pos = vec_subt(X[1], X[3])\n                        if in_volume"), ""), ("                        diff_pos = vec_subt(X[1], X[3])\n                        if in_volume == 1 and", "                        diff_pos = vec_subt(X[1], X[3])\n                        if _in_volume(X[3], run_info) and"), (TOP, VOL + TOP))
r(TK2, ("            npart, nlinks = run_info.npart / track_range", "") if False else ("        npart += fb.buf[1].num_parts\n        nlinks += count1\n\n        fb.fb_next()\n        if not fb.write_frame_from_start(step):\n            raise IOError(\"Could not write frame to disk\")\n\n        if step > seq_par.first + 2:\n            fb.read_frame_at_end(step - 3, read_links=True)\n", "        nlinks += count1\n        npart += fb.buf[1].num_parts\n\n        _next_frame_back(fb, step, seq_par.first)\n"), ("def trackback_c(run_info: TrackingRun):\n", "def _next_frame_back(fb, step, first):\n    \"\"\"Write the current frame and read the next earlier one.\"\"\"\n    fb.fb_next()\n    if not fb.write_frame_from_start(step):\n        raise IOError(\"Could not write frame to disk\")\n\n    if step - 3 < first:\n        return\n    fb.read_frame_at_end(step - 3, read_links=True)\n\n\ndef trackback_c(run_info: TrackingRun):\n"))
# ---- third battery: helpers extracted, loops rewritten, statements moved between functions
# correspondences
r(CO, ("        p1 = corr_list[0][1][i].p1\n        for j in range(corr_list[0][1][i].n):\n            p2 = corr_list[0][1][i].p2[j]\n            for k in range(corr_list[0][2][i].n):\n                p3 = corr_list[0][2][i].p2[k]\n                for ll in range(corr_list[0][3][i].n):\n                    p4 = corr_list[0][3][i].p2[ll]\n",
  "        e12, e13, e14 = corr_list[0][1][i], corr_list[0][2][i], corr_list[0][3][i]\n        p1 = e12.p1\n        for j, p2 in enumerate(e12.p2[: e12.n]):\n            for k, p3 in enumerate(e13.p2[: e13.n]):\n                for ll, p4 in enumerate(e14.p2[: e14.n]):\n"))
r(CO, ("def three_camera_matching(", "def record_match(scratch, row, members, corr):\n    \"\"\"Store one preliminary match.\"\"\"\n    for cam, target in members:\n        scratch[row].p[cam] = target\n    scratch[row].corr = corr\n    return row + 1\n\n\ndef three_camera_matching("),
  ("                                scratch[matched].p[0] = p1\n                                scratch[matched].p[1] = p2\n                                scratch[matched].p[2] = p3\n                                scratch[matched].p[3] = p4\n                                scratch[matched].corr = corr\n\n                                matched += 1\n",
   "                                matched = record_match(\n                                    scratch, matched, enumerate((p1, p2, p3, p4)), corr\n                                )\n"))
r(CO, ("                            p = np.full(TR_MAX_CAMS, -2)\n                            p[i1], p[i2], p[i3] = p1, p2, p3\n                            scratch[matched].p = p\n", "                            members = {i1: p1, i2: p2, i3: p3}\n                            for cam in range(TR_MAX_CAMS):\n                                scratch[matched].p[cam] = members.get(cam, -2)\n"))
r(CO, ("    for i1 in range(num_cams - 1):\n        for i2 in range(i1 + 1, num_cams):\n            for i in range(target_counts[i1]):\n                p1 = corr_list[i1][i2][i].p1\n", "    pairs = [(a, b) for a in range(num_cams) for b in range(a + 1, num_cams)]\n    for i1, i2 in pairs:\n            for i in range(target_counts[i1]):\n                p1 = corr_list[i1][i2][i].p1\n"))
r(CO, ("def consistent_pair_matching(", "def is_taken(target, used, nmax):\n    \"\"\"Tell whether a target is out of range or in use.\"\"\"\n    return target >= nmax or used[target] > 0\n\n\ndef consistent_pair_matching("),
  ("                if p1 >= nmax or tusage[i1][p1] > 0:\n                    continue\n\n                if corr_list[i1][i2][i].n != 1:", "                if is_taken(p1, tusage[i1], nmax):\n                    continue\n\n                if corr_list[i1][i2][i].n != 1:"),
  ("                p2 = corr_list[i1][i2][i].p2[0]\n                if p2 >= nmax or tusage[i2][p2] > 0:\n", "                p2 = corr_list[i1][i2][i].p2[0]\n                if is_taken(p2, tusage[i2], nmax):\n"))
r(CO, ("    for cand in src:\n        has_used_target = False\n        for cam in range(num_cams):\n            tnum = cand.p[cam]\n\n            # If any correspondence in this camera, check if the target is free\n            if tnum > -1 and tusage[cam][tnum] > 0:\n                has_used_target = True\n                break\n\n        if has_used_target:\n            continue\n\n        # Mark the targets as used\n        for cam in range(num_cams):\n            tnum = cand.p[cam]\n            if tnum > -1:\n                tusage[cam][tnum] += 1\n",
  "    for cand in src:\n        members = [(cam, cand.p[cam]) for cam in range(num_cams) if cand.p[cam] > -1]\n        if any(tusage[cam][tnum] > 0 for cam, tnum in members):\n            continue\n\n        for cam, tnum in members:\n            tusage[cam][tnum] += 1\n"))
r(CO, ("    src.sort(order=\"corr\")  # by corr\n    src[:] = np.flip(\n        src, axis=0\n    )  # reverse order in-place while preserving recarray type\n", "    src[:] = np.sort(src, order=\"corr\")[::-1]\n"))
r(CO, ("                for j in range(count):\n                    corr_lists[i1][i2][i].p2[j] = cand[j].pnr\n                    corr_lists[i1][i2][i].corr[j] = cand[j].corr\n                    corr_lists[i1][i2][i].dist[j] = cand[j].tol\n\n                corr_lists[i1][i2][i].n = count\n",
  "                fill_entry(corr_lists[i1][i2][i], cand, count)\n"), ("def match_pairs(", "def fill_entry(entry, cand, count):\n    \"\"\"Write the candidates of one target.\"\"\"\n    for j, one in enumerate(cand[:count]):\n        entry.p2[j] = one.pnr\n        entry.corr[j] = one.corr\n        entry.dist[j] = one.tol\n    entry.n = count\n\n\ndef match_pairs("))
r(CO, ("    for i in range(match_counts[3]):\n        for j in range(cpar.num_cams):\n            # Skip cameras without a correspondence obviously.\n            if con[i].p[j] < 0:\n                continue\n\n            p1 = corrected[j][con[i].p[j]].pnr\n            if p1 > -1 and p1 < 1202590843:\n                frm.targets[j][p1].tnr = i\n",
  "    mark_targets(con, match_counts[3], cpar.num_cams, corrected, frm)\n"), ("def correspondences(", "def mark_targets(con, total, num_cams, corrected, frm):\n    \"\"\"Write the number of its match to every matched target.\"\"\"\n    for j in range(num_cams):\n        for i in range(total):\n            row = con[i].p[j]\n            if row >= 0:\n                p1 = corrected[j][row].pnr\n                if -1 < p1 < 1202590843:\n                    frm.targets[j][p1].tnr = i\n\n\ndef correspondences("))
r(CO, ("    last_count = 0\n\n    for clique_type in range(num_cams - 1):\n        num_points = match_counts[4 - num_cams + clique_type]  # for 1-4 cameras\n", "    last_count = 0\n    first = TR_MAX_CAMS - num_cams\n\n    for num_points in match_counts[first : first + num_cams - 1]:\n"))
r(CO, ("        for cam in range(num_cams):\n            for pt in range(num_points):\n                geo_id = corresp_buf[pt + last_count].p[cam]\n                if geo_id < 0:\n                    continue\n\n                p1 = flat_coords[cam][geo_id].pnr\n                clique_ids[cam, pt] = p1\n\n                if p1 > -1:\n                    targ = img_pts[cam][p1]\n                    clique_targs[cam, pt, 0] = targ.x\n                    clique_targs[cam, pt, 1] = targ.y\n",
  "        for pt, match in enumerate(corresp_buf[last_count : last_count + num_points]):\n            for cam in range(num_cams):\n                geo_id = match.p[cam]\n                if geo_id >= 0:\n                    p1 = flat_coords[cam][geo_id].pnr\n                    clique_ids[cam, pt] = p1\n                    if p1 > -1:\n                        clique_targs[cam, pt] = img_pts[cam][p1].x, img_pts[cam][p1].y\n"))
r(CO, ("    for pt in range(num_points):\n        # From Beat code (issue #118) pix[0][geo[0][i].pnr].tnr=i;\n\n        p1 = corrected[pt].pnr\n        clique_ids[0, pt] = p1\n\n        if p1 > -1:\n            targ = img_pts[p1]\n", "    for pt, p1 in enumerate(corrected.pnr[:num_points]):\n        clique_ids[0, pt] = p1\n\n        if p1 >= 0:\n            targ = img_pts[p1]\n"))
r(CO, ("        match_counts[0] = take_best_candidates(\n            con0[:matched], con, cpar.num_cams, tim\n        )\n        match_counts[3] += match_counts[0]\n", "        quads = take_best_candidates(con0[:matched], con, cpar.num_cams, tim)\n        match_counts[0] = quads\n        match_counts[3] = match_counts[3] + quads\n"))
r(CO, ("    if cpar.num_cams > 1 and cpar.all_cam_flag == 0:\n", "    if not (cpar.num_cams <= 1 or cpar.all_cam_flag):\n"))
# find_candidate
r(FC, ("        # Enforce minimum quality values and maximum candidates.\n        if qn < vpar.cn or qnx < vpar.cnx or qny < vpar.cny or qsumg <= vpar.csumg:\n            continue\n", "        if not similar(qn, qnx, qny, qsumg, vpar):\n            continue\n"), ("def find_candidate(", "def similar(qn, qnx, qny, qsumg, vpar):\n    \"\"\"Tell whether the shape and brightness ratios are good enough.\"\"\"\n    return qn >= vpar.cn and qnx >= vpar.cnx and qny >= vpar.cny and qsumg > vpar.csumg\n\n\ndef find_candidate("))
r(FC, ("        d = math.fabs((crd[j].y - m * crd[j].x - b) / math.sqrt(m * m + 1))\n        if d >= vpar.eps0:\n            continue\n", "        d = line_distance(crd[j].x, crd[j].y, m, b)\n        if not d < vpar.eps0:\n            continue\n"), ("def find_candidate(", "def line_distance(x, y, m, b):\n    \"\"\"Distance of a point from y = m*x + b.\"\"\"\n    return abs(y - m * x - b) / math.hypot(m, 1.0)\n\n\ndef find_candidate("))
r(FC, ("    xmin = (-1) * cpar.pix_x * cpar.imx / 2\n    xmax = cpar.pix_x * cpar.imx / 2\n    ymin = (-1) * cpar.pix_y * cpar.imy / 2\n    ymax = cpar.pix_y * cpar.imy / 2\n\n    xmin, ymin = dist_to_flat(xmin, ymin, cal)\n    xmax, ymax = dist_to_flat(xmax, ymax, cal)\n", "    (xmin, ymin), (xmax, ymax) = sensor_corners(cpar, cal)\n"), ("def find_candidate(", "def sensor_corners(cpar, cal):\n    \"\"\"Lower left and upper right corner of the sensor in flat coordinates.\"\"\"\n    width, height = cpar.pix_x * cpar.imx, cpar.pix_y * cpar.imy\n    return [dist_to_flat(s * width / 2, s * height / 2, cal) for s in (-1, 1)]\n\n\ndef find_candidate("))
r(FC, ("    for j in range(j0, num):\n        # Since", "    for j, point in enumerate(crd[j0:num], start=j0):\n        # Since"), ("        if crd[j].x > xb + vpar.eps0:", "        if point.x > xb + vpar.eps0:"), ("        p2 = crd[j].pnr\n", "        p2 = point.pnr\n"))
r(FC, ("        cand.append(np.array([(j, d, corr)], dtype=Candidate_dtype))  # type: ignore\n\n    out = np.array(cand).view(np.recarray).flatten()\n    # print(f\"appended: {cand[-1]}\")\n\n    return out  # type: ignore\n", "        cand.append((j, d, corr))\n\n    return np.array(cand, dtype=Candidate_dtype).view(np.recarray)\n"),
  ("            out = np.array(cand).view(np.recarray).flatten()\n            return out  # type: ignore\n", "            return np.array(cand, dtype=Candidate_dtype).view(np.recarray)\n"), ("            out = np.array(cand).view(np.recarray).flatten()\n            return out  # type: ignore\n", "            return np.array(cand, dtype=Candidate_dtype).view(np.recarray)\n"))
r(FC, ("        corr = 4 * qsumg + 2 * qn + qnx + qny\n\n        # Prefer matches with brighter targets.\n        corr *= sumg + pix[p2].sumg\n", "        weights = (4, 2, 1, 1)\n        corr = sum(w * q for w, q in zip(weights, (qsumg, qn, qnx, qny)))\n        corr *= sumg + pix[p2].sumg\n"))
# sortgrid
r(SO, ("        if (\n            (calib_point[0] > -eps)\n            and (calib_point[1] > -eps)\n            and (calib_point[0] < cpar.imx + eps)\n            and (calib_point[1] < cpar.imy + eps)\n        ):\n            j = nearest", "        if near_image(calib_point, cpar, eps):\n            j = nearest"), ("def sortgrid(", "def near_image(point, cpar, eps):\n    \"\"\"Tell whether a point is on the image or close to it.\"\"\"\n    limits = (cpar.imx, cpar.imy)\n    return all(-eps < c < size + eps for c, size in zip(point, limits))\n\n\ndef sortgrid("))
r(SO, ("    pnr = PT_UNUSED\n    dmin = POS_INF\n    xmin, xmax, ymin, ymax = x - eps, x + eps, y - eps, y + eps\n\n    for count, t in enumerate(pix):\n        if ymin < t.y < ymax and xmin < t.x < xmax:\n            d = np.sqrt((x - t.x) ** 2 + (y - t.y) ** 2)\n            if d < dmin:\n                dmin = d\n                pnr = count\n\n    return pnr\n",
  "    inside = [\n        k\n        for k, t in enumerate(pix)\n        if y - eps < t.y < y + eps and x - eps < t.x < x + eps\n    ]\n    if not inside:\n        return PT_UNUSED\n    return min(inside, key=lambda k: (x - pix[k].x) ** 2 + (y - pix[k].y) ** 2)\n"))
r(SO, ("            if j != -999:\n                sorted_pix[i] = replace(pix[j], pnr=i)\n", "            if j == PT_UNUSED:\n                continue\n            found = replace(pix[j])\n            found.pnr = i\n            sorted_pix[i] = found\n"))
r(SO, ("        with open(filename, \"r\", encoding=\"utf-8\") as f:\n            lines = f.readlines()\n            for line in lines:\n                values = line.strip().split()\n                pnr = int(values[0])\n                x = float(values[1])\n                y = float(values[2])\n                z = float(values[3])\n                # coord = Coord3d(pnr, x, y, z)\n                coord = np.array([(pnr, x, y, z)], dtype=Coord3d_dtype)\n                coords.append(coord)\n", "        with open(filename, \"r\", encoding=\"utf-8\") as f:\n            for line in f:\n                pnr, *xyz = line.split()[:4]\n                x, y, z = (float(v) for v in xyz)\n                coords.append(np.array([(int(pnr), x, y, z)], dtype=Coord3d_dtype))\n"))
# epi / imgcoord / trafo
r(EP, ("    X = move_along_ray(z_min, pos, v)\n    xmin, ymin = flat_image_coord(X, cal2, mmp)\n\n    X = move_along_ray(z_max, pos, v)\n    xmax, ymax = flat_image_coord(X, cal2, mmp)\n", "    (xmin, ymin), (xmax, ymax) = (\n        flat_image_coord(move_along_ray(z, pos, v), cal2, mmp) for z in (z_min, z_max)\n    )\n"))
r(EP, ("    out = move_along_ray(0.5 * (z_min + z_max), pos, v)\n    return out\n", "    middle = z_min + (z_max - z_min) / 2\n    return move_along_ray(middle, pos, v)\n"))
r(EP, ("        pos = move_along_ray(Z, vertex, direct)\n        x, y = img_coord(pos, project_cam, cparam.mm)\n        line_points[pt_ix, 0], line_points[pt_ix, 1] = metric_to_pixel(x, y, cparam)\n", "        line_points[pt_ix, :] = seen_at(move_along_ray(Z, vertex, direct), project_cam, cparam)\n"), ("def epipolar_curve(", "def seen_at(pos, cal, cparam):\n    \"\"\"Pixel position of a point in a camera.\"\"\"\n    x, y = img_coord(pos, cal, cparam.mm)\n    return metric_to_pixel(x, y, cparam)\n\n\ndef epipolar_curve("))
r(EP, ("    for pt_ix, Z in enumerate(\n        np.linspace(vparam.z_min_lay[0], vparam.z_max_lay[0], num_points)\n    ):\n", "    z_first, z_last = vparam.z_min_lay[0], vparam.z_max_lay[0]\n    for pt_ix in range(num_points):\n        Z = z_first + (z_last - z_first) * pt_ix / (num_points - 1)\n"))
r(IM, ("    out = np.empty((orig_pos.shape[0], 2))\n\n    for i, row in enumerate(orig_pos):\n        out[i, 0], out[i, 1] = flat_image_coord(row, cal, mm)\n\n    return out\n", "    flat = [flat_image_coord(row, cal, mm) for row in orig_pos]\n    return np.array(flat, dtype=float).reshape(-1, 2)\n"))
r(IM, ("    deno = np.dot(dm[:, 2], (pos - origin))\n    if deno == 0:\n        deno = 1\n\n    x = -cal.int_par.cc * np.dot(dm[:, 0], (pos - origin)) / deno\n    y = -cal.int_par.cc * np.dot(dm[:, 1], (pos - origin)) / deno\n", "    in_camera = dm.T @ (pos - origin)\n    deno = in_camera[2] if in_camera[2] != 0 else 1\n    x, y = -cal.int_par.cc * in_camera[:2] / deno\n"))
r("trafo.py", ("    r = np.sqrt(x**2 + y**2)\n\n    dx = (\n        x * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)\n        + ap[3] * (r**2 + 2 * x**2)\n        + 2 * ap[4] * x * y\n    )\n    dy = (\n        y * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)\n        + ap[4] * (r**2 + 2 * y**2)\n        + 2 * ap[3] * x * y\n    )\n    x += dx\n    y += dy\n", "    rr = x**2 + y**2\n    radial = rr * (ap[0] + rr * (ap[1] + rr * ap[2]))\n    cross = 2 * x * y\n\n    dx = x * radial + ap[3] * (rr + 2 * x**2) + ap[4] * cross\n    dy = y * radial + ap[4] * (rr + 2 * y**2) + ap[3] * cross\n    x, y = x + dx, y + dy\n"))
r("trafo.py", ("    flat_x += cal.int_par.xh\n    flat_y += cal.int_par.yh\n", "    xh, yh = cal.int_par.xh, cal.int_par.yh\n"), ("    dist_x, dist_y = distort_brown_affine(flat_x, flat_y, cal.added_par)\n    # print(f\"dist_x {dist_x}, dist_y {dist_y}\")\n\n    return dist_x, dist_y\n", "    return distort_brown_affine(flat_x + xh, flat_y + yh, cal.added_par)\n"))
r("trafo.py", ("    while True:\n        r = rq\n", "    for itnum in range(1, 202):\n        r = rq\n"), ("        itnum += 1\n\n        if itnum >= 201 or np.abs(rq - r) <= tol * r:\n            break\n", "        if np.abs(rq - r) <= tol * r:\n            break\n"))
r("trafo.py", ("    metric = np.empty_like(pixel, dtype=np.float64)\n    metric[:, 0] = (pixel[:, 0] - imx / 2.0) * pix_x\n    metric[:, 1] = (imy / 2.0 - pixel[:, 1]) * pix_y\n", "    metric = np.empty(pixel.shape, dtype=np.float64)\n    for i in range(pixel.shape[0]):\n        metric[i, 0] = pix_x * (pixel[i, 0] - imx / 2.0)\n        metric[i, 1] = pix_y * (imy / 2.0 - pixel[i, 1])\n"))
r("trafo.py", ("    x_pixel = (x_metric / pix_x) + (float(imx) / 2.0)\n    y_pixel = (float(imy) / 2.0) - (y_metric / pix_y)\n", "    half_x = imx / 2.0\n    half_y = imy / 2.0\n    x_pixel = half_x + x_metric / pix_x\n    y_pixel = half_y - y_metric / pix_y\n"))
r("trafo.py", ("    pixel = np.zeros_like(metric)\n    pixel[:, 0] = (metric[:, 0] / pix_x) + (imx / 2.0)\n    pixel[:, 1] = (imy / 2.0) - (metric[:, 1] / pix_y)\n\n    return pixel\n", "    n = metric.shape[0]\n    pixel = np.empty((n, 2))\n    for k in range(n):\n        pixel[k, 0] = imx / 2.0 + metric[k, 0] / pix_x\n        pixel[k, 1] = imy / 2.0 - metric[k, 1] / pix_y\n\n    return pixel\n"))
