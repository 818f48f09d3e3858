"""C08, C09: searching pixel windows and merging what the cameras found."""
import os

S, M = {"C08"}, {"C09"}
PROPS = {"target-not-in-window": S, "found-twice": S, "not-nearest-first": S, "nearer-target-left-out": S, "gap": S,
         "slots": S, "counter": S, "camera-mark": S | M, "found-by-no-camera": M, "merged-twice": M, "lost": M,
         "count": M, "cameras": M, "order": M, "number-merged": M, "end-mark": M}


def run(ctx):
    ms = []
    if ctx.prop == "C08":
        ms.append(ctx.pool.submit(ctx.model, "MCStart", "MCStartBig.cfg" if ctx.thorough else None, min_states=50000,
                                  workers=3, timeout=2500))
        ms.append(ctx.pool.submit(ctx.model, "MCPixelSearch", "MCPixelSearchBig.cfg" if ctx.thorough else None,
                                  min_states=5000, workers=3, timeout=2500))
        kinds = [("search", 2000), ("long", 50)]
    else:
        ms.append(ctx.pool.submit(ctx.model, "MCPixelSearch", "MCPixelMerge.cfg", min_states=5000, workers=4,
                                  timeout=2500))
        kinds = [("merge", 2000), ("volume", 100)]
    fs = [(k, mn, ctx.pool.submit(ctx.drive, "pixelsearch", k)) for k, mn in kinds]
    for k, mn, f in fs:
        d = f.result()
        ctx.clauses.update(ctx.stats(d))
        p = os.path.join(d, k + ".ndjson")
        if os.path.exists(p) and not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
            ctx.validate(p, "TracePixelSearch", lambda c: PROPS.get(c, {ctx.prop}), expect_min=mn, label="pixels." + k,
                         timeout=1500)
    for f in ms:
        f.result()
    ctx.assumptions += ["coordinates on a lattice of quarter pixels in the direct searches, so that ties and borders "
                        "are exact"]


# ------------------------------------------------------------------- drivers
U = 4.0


def targets(pts):
    from openptv_python.tracking_frame_buf import Target
    return [Target(pnr=i, x=p[0] / U, y=p[1] / U, n=4, nx=2, ny=2, sumg=100, tnr=p[2]) for i, p in enumerate(pts)]


def image(w, h, ncam=1):
    from openptv_python.parameters import ControlPar
    cpar = ControlPar(num_cams=ncam)
    cpar.set_image_size((w, h))
    cpar.set_pixel_size((0.01, 0.01))
    return cpar


def empty_found(k):
    import numpy as np
    from openptv_python.track import Foundpix_dtype, TR_MAX_CAMS, TR_UNUSED
    return np.array([(TR_UNUSED, 0, [0] * TR_MAX_CAMS)] * k, dtype=Foundpix_dtype).view(np.recarray)


def search(out):
    from openptv_python import track
    rng = out.rng
    n = 24000 if out.thorough else 3000
    for it in range(n):
        W, H = rng.choice([(10, 10), (16, 8), (40, 30), (6, 40)])
        w, h = int(W * U), int(H * U)
        m = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 35, 60, 100, 200])
        few = rng.random() < .3
        ys = [rng.randint(0, h) for _ in range(3)]
        pts = []
        for _ in range(m):
            x = rng.randint(-2, w + 2)
            y = rng.choice(ys) if few else rng.randint(-2, h + 2)
            pts.append([x, y, -1 if rng.random() < .4 else 0])
        cx, cy = rng.randint(0, w), rng.randint(0, h)
        z = rng.random()
        if z < .06:
            cx = rng.choice([-1, w + 1, -5, 0, w])
        elif z < .12:
            cy = rng.choice([-1, h + 1, -5, 0, h])
        if pts and rng.random() < .5:              # ties about the centre
            for _ in range(rng.randint(1, 4)):
                a, b = rng.randint(0, 4), rng.randint(0, 4)
                for sx, sy in rng.sample([(a, b), (-a, b), (a, -b), (-a, -b), (b, a), (-b, a), (b, -a)], 4):
                    pts.append([cx + sx, cy + sy, -1 if rng.random() < .4 else 0])
        pts.sort(key=lambda p: p[1])
        ids = list(range(500))
        rng.shuffle(ids)
        for i, p in enumerate(pts):
            if p[2] != -1:
                p[2] = ids[i]
        lim = [rng.choice([0, 1, 2, 4, 8, 12, 20, 40, 200]) for _ in range(4)]
        if rng.random() < .04:
            lim[rng.randrange(4)] = -1
        dl, dr, du, dd = lim
        c = {"pts": pts, "cx": cx, "cy": cy, "dl": dl, "dr": dr, "du": du, "dd": dd, "w": w, "h": h}
        a = [cx / U, cy / U, dl / U, dr / U, du / U, dd / U]
        cpar = image(W, H)
        tg = targets(pts)
        before = [(t.pnr, t.x, t.y, t.tnr) for t in tg]
        kind = ("near", "rest", "reg")[it % 3]
        rec = {"kind": kind, "c": c}
        if kind == "near":
            r, err = out.call(track.candsearch_in_pix, tg, len(tg), *a, cpar, _desc=c)
            rec["got"] = [] if err else [int(x) for x in r]
        elif kind == "rest":
            p = [-1] * 4
            r, err = out.call(track.candsearch_in_pix_rest, tg, len(tg), *a, p, cpar, _desc=c)
            rec["got"] = [] if err else [int(p[0])]
            rec["count"] = -1 if err else int(r)
            if any(int(q) != -1 for q in p[1:]):
                err = "other places of the answer changed"
        else:
            cam = rng.randrange(4)
            whole = empty_found(16)
            r, err = out.call(track.register_closest_neighbs, tg, len(tg), cam, *a, whole[4 * cam:], cpar, _desc=c)
            rec["cam"] = cam
            rec["got"] = [] if err else [[int(whole[4 * cam + k].ftnr),
                                          [q for q in range(4) if int(whole[4 * cam + k].whichcam[q])]]
                                         for k in range(4)]
            if not err and any(int(whole[q].ftnr) != -1 for q in range(16) if q // 4 != cam):
                err = "slots of other cameras changed"
            out.count("registered", len([g for g in rec["got"] if g[0] != -1]))
        rec["err"] = err
        rec["unchanged"] = before == [(t.pnr, t.x, t.y, t.tnr) for t in tg]
        out.rec("search", rec)
        out.count("kind." + kind)
        if kind != "reg":
            out.count("found", len([g for g in rec["got"] if g != -1]))


def long(out):
    from openptv_python import track
    from openptv_python.tracking_frame_buf import Target
    rng = out.rng
    sizes = list(range(0, 34)) + [63, 64, 65, 127, 255, 257, 511, 767, 1023, 1024, 1535, 2047, 2048, 3071, 4095, 4097,
                                  6143, 8191, 8192, 12287, 16383, 20480]
    sizes += [rng.randint(35, 20480) for _ in range(3)]
    if out.thorough:
        sizes += list(range(34, 400)) + [rng.randint(300, 20480) for _ in range(60)]
    budget = 1000 if not out.thorough else 10**9
    cpar = image(100, 100000)
    for num in sizes:
        if num > budget:
            pos = set(range(60)) | set(range(num - 60, num)) | {rng.randrange(num) for _ in range(400)}
            k = num
            while k > 16:
                k //= 2
                for q in range(k, num, k):
                    if len(pos) < budget + 400:
                        pos |= {q - 2, q - 1, q, q + 1}
            pos = sorted(p for p in pos if 0 <= p < num)
        else:
            pos = list(range(num))
        for linked in (True, False):
            tg = [Target(pnr=i, x=50.0, y=float(i + 1), n=4, nx=2, ny=2, sumg=100, tnr=i if linked else -1)
                  for i in range(num)]
            found, other, err = [], 0, ""
            for p in pos or [0]:
                if linked:
                    r, e = out.call(track.candsearch_in_pix, tg, num, 50.0, p + 1.0, .5, .5, .5, .5, cpar,
                                    _desc={"num": num, "position": p})
                else:
                    r = [-1]
                    _, e = out.call(track.candsearch_in_pix_rest, tg, num, 50.0, p + 1.0, .5, .5, .5, .5, r, cpar,
                                    _desc={"num": num, "position": p})
                if e:
                    err = e
                    break
                ids = [int(k) for k in r if int(k) != -1]
                if p in ids:
                    found.append(p)
                other += sum(1 for i in ids if i != p)
            runs, fs = [], set(found)
            for k, p in enumerate(pos):
                lo = 0 if k == 0 else pos[k - 1] + 1
                hi = num - 1 if k == len(pos) - 1 else p
                if p in fs:
                    if runs and runs[-1][1] == lo - 1:
                        runs[-1][1] = hi
                    else:
                        runs.append([lo, hi])
            out.rec("long", {"kind": "long", "num": num, "asked": len(pos), "found": runs, "other": other, "err": err,
                             "linked": linked, "unchanged": True})
            out.count("long.searches", len(pos))


def merge(out):
    import itertools
    from openptv_python import track
    rng = out.rng
    n = 30000 if out.thorough else 4000
    small = list(itertools.product([-1, 0, 1], repeat=4))
    for it in range(n):
        ncam = rng.choice([1, 2, 2, 3, 3, 4, 4, 4])
        pool = rng.choice([2, 3, 4, 6, 9, 16])
        names = rng.sample(range(0, 9000), pool)
        slots = []
        for c in range(ncam):
            if it < 800:
                ncam2 = 2
                s = [x if x == -1 else names[x] for x in rng.choice(small)]
            else:
                s = [rng.choice(names) if rng.random() < .75 else -1 for _ in range(4)]
                if rng.random() < .7:               # as a search gives them: no repetition, free slots last
                    s = list(dict.fromkeys(x for x in s if x != -1))
                    s += [-1] * (4 - len(s))
            slots.append(s)
        fp = empty_found(4 * ncam)
        marked = rng.random() < .6
        for c in range(ncam):
            for k in range(4):
                fp[4 * c + k].ftnr = slots[c][k]
                if marked and slots[c][k] != -1:
                    fp[4 * c + k].whichcam[c] = 1
        r, err = out.call(track.sort_candidates_by_freq, fp, ncam, _desc=slots)
        merged = []
        if not err:
            for q in fp:
                if int(q.freq) != 0 or (int(q.ftnr) != -1 and len(merged) < int(r)):
                    merged.append([int(q.ftnr), int(q.freq), [int(x != 0) for x in q.whichcam[:ncam]]])
        out.rec("merge", {"kind": "merge", "slots": slots, "merged": merged, "count": -1 if err else int(r),
                          "err": err, "unchanged": True})
        out.count("cams.%d" % ncam)
        out.count("merged", len(merged))


def volume(out):
    import numpy as np
    from groups.candidates import scene
    from openptv_python.parameters import SequencePar, TrackParTuple, VolumePar
    from openptv_python.track import sorted_candidates_in_volume
    from openptv_python.tracking_frame_buf import Frame, Target
    from openptv_python.tracking_run import TrackingRun
    from vlib import optics
    rng = out.rng
    n = 1500 if out.thorough else 200
    F = 32                                         # units per pixel
    done = 0
    while done < n:
        ncam = rng.choice([1, 2, 3, 4, 4])
        cams, mm = scene(rng, ncam, rng.choice(["air", "water"]))
        W, H = 1280, 1024
        cpar = image(W, H, ncam)
        cpar.mm = optics.make_mm(mm)
        cals = [optics.make_cal(c) for c in cams]
        d = [rng.choice([.5, 1., 2., 3.]) for _ in range(6)]
        tpar = TrackParTuple(-d[0], d[1], -d[2], d[3], -d[4], d[5], 100., 1., 0, 0., 0., 0., 0.)
        vpar = VolumePar(x_lay=[-50., 50.], z_min_lay=[-40., -40.], z_max_lay=[40., 40.], cn=0, cnx=0, cny=0, csumg=0,
                         eps0=.1, corrmin=1.)
        seq = SequencePar(img_base_name=["x"] * ncam, first=1, last=4)
        run_, err = out.call(TrackingRun, seq, tpar, vpar, cpar, 4, 2, "", "", "", cals, .0001, _desc="set up")
        X = np.array([rng.uniform(-20, 20) for _ in range(3)])

        def px(c, Y):
            x, y = optics.project(c, mm, Y)
            x, y = x + c["xh"], y + c["yh"]
            return x / .01 + W / 2, H / 2 - y / .01
        frm = Frame(ncam, 2)
        npart = rng.choice([0, 1, 2, 4, 8, 14])
        P = [X + np.array([rng.uniform(-1.1 * d[2 * k], 1.1 * d[2 * k + 1]) for k in range(3)]) for _ in range(npart)]
        cs, centre, ok = [], [], True
        for c in cams:
            corn = [px(c, X + np.array([a, b, e])) for a in (-d[0], d[1]) for b in (-d[2], d[3]) for e in (-d[4], d[5])]
            ce = px(c, X)
            xl, xr = max(0, min(q[0] for q in corn)), min(W, max(q[0] for q in corn))
            yu, yd = max(0, min(q[1] for q in corn)), min(H, max(q[1] for q in corn))
            off = [rng.uniform(-4, 4), rng.uniform(-4, 4)] if rng.random() < .5 else [0, 0]
            cen = [round((ce[0] + off[0]) * F), round((ce[1] + off[1]) * F)]
            lims = [ce[0] - xl, xr - ce[0], ce[1] - yu, yd - ce[1]]
            pts = []
            for k, Y in enumerate(P):
                q = px(c, Y)
                if rng.random() < .8:
                    pts.append([round(q[0] * F), round(q[1] * F), k if rng.random() < .8 else -1])
            pts.sort(key=lambda q: q[1])
            e = [cen[0] / F - lims[0], cen[0] / F + lims[1], cen[1] / F - lims[2], cen[1] / F + lims[3]]
            for q in pts:
                if min(abs(q[0] / F - e[0]), abs(q[0] / F - e[1]), abs(q[1] / F - e[2]), abs(q[1] / F - e[3])) < .15:
                    ok = False
            dist = sorted((q[0] - cen[0]) ** 2 + (q[1] - cen[1]) ** 2 for q in pts)
            ok = ok and all(dist[k] < dist[k + 1] for k in range(len(dist) - 1))
            ok = ok and abs(cen[0]) < 40 * W and 0 < cen[0] < W * F and 0 < cen[1] < H * F
            cs.append({"pts": pts, "cx": cen[0], "cy": cen[1], "dl": round(lims[0] * F), "dr": round(lims[1] * F),
                       "du": round(lims[2] * F), "dd": round(lims[3] * F), "w": W * F, "h": H * F})
            centre.append([cen[0] / F, cen[1] / F])
        if not ok:
            out.count("undecided")
            continue
        for i, c in enumerate(cs):
            frm.targets[i] = [Target(pnr=j, x=q[0] / F, y=q[1] / F, n=4, nx=2, ny=2, sumg=10, tnr=q[2])
                              for j, q in enumerate(c["pts"])]
            frm.num_targets[i] = len(c["pts"])
        frm.num_parts = npart
        r, e2 = (None, err) if err else out.call(sorted_candidates_in_volume, X, np.array(centre), frm, run_,
                                                 _desc={"scene": done})
        got = [] if e2 else [[int(q.ftnr), int(q.freq), [int(x != 0) for x in q.whichcam[:ncam]]] for q in r]
        out.rec("volume", {"kind": "volume", "cs": cs, "got": got, "err": e2, "unchanged": True})
        done += 1
        out.count("candidates", len([g for g in got if g[0] != -1]))
