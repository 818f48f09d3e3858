"""C23, C31: orientation of a camera from known points."""
import copy
import math
import os

OWN = {"C23": {"only-chosen", "allowed-parameter-kept", "kept", "untouched", "used", "residual-count", "raw-changes-interior", "raw-keeps-distortion",
               "argument-changed", "matrix-not-of-the-angles"},
       "C31": {"does-not-converge", "not-recovered", "not-the-optimum", "lens-not-the-optimum", "allowed-parameter-kept", "residual-value", "errors-not-small", "error-estimate",
               "depends-on-history", "raw-does-not-converge", "raw-not-recovered", "raw-not-the-optimum", "derivative",
               "derivative-changes-camera", "residual-count", "only-chosen", "used", "matrix-not-of-the-angles"}}


def props(clause):
    return {p for p, c in OWN.items() if clause in c}


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCOrientation", "MCOrientationBig.cfg" if ctx.thorough else None, min_states=200000,
                        workers=4, timeout=3000)
    parts = 6
    fs = [ctx.pool.submit(ctx.drive, "orient", "orienting", {"part": i, "parts": parts}) for i in range(parts)]
    ds = [f.result() for f in fs]
    for d in ds:
        for k, v in ctx.stats(d).items():
            ctx.clauses[k] = ctx.clauses.get(k, 0) + v
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        p = os.path.join(ctx.scratch, "ori.ndjson")
        with open(p, "w") as o:
            for d in ds:
                o.write(open(os.path.join(d, "ori.ndjson")).read())
        ctx.validate(p, "TraceOrientation", props, expect_min=120, label="orientations", timeout=2500)
    m.result()
    ctx.assumptions += ["observations and the least squares optimum come from a reference ray tracer and an independent "
                        "optimiser; differences below 0.002 mm, 1e-5 rad and 0.5 % of the objective are not judged"]


# ------------------------------------------------------------------- drivers
INNER = ["ccflag", "xhflag", "yhflag", "k1flag", "k2flag", "k3flag", "p1flag", "p2flag", "scxflag", "sheflag"]
# a unit of each parameter, in which deviations are recorded
UNIT = [1e-5] * 3 + [1e-8] * 3 + [1e-5] * 3 + [1e-9, 1e-11, 1e-13, 1e-9, 1e-9, 1e-8, 1e-8] + [1e-5] * 3
TINY = [1e-10] * 3 + [1e-12] * 3 + [1e-10] * 3 + [1e-14, 1e-16, 1e-18, 1e-14, 1e-14, 1e-12, 1e-12] + [1e-10] * 3


def vec(cal):
    e, i = cal.ext_par, cal.int_par
    return [float(v) for v in (e.x0, e.y0, e.z0, e.omega, e.phi, e.kappa, i.cc, i.xh, i.yh, *cal.added_par, *cal.glass_par)]


def steps(a, b, unit):
    """Differences in whole units, rounded up."""
    res = []
    for x, y, u in zip(a, b, unit):
        q = abs(x - y)
        res.append(0 if q == 0 else min(10 ** 9, int(q / u) + 1) if q == q else 10 ** 9)
    return res


def cam_of(v):
    return {"pos": v[0:3], "ang": v[3:6], "cc": v[6], "xh": v[7], "yh": v[8], "added": v[9:16], "glass": v[16:19]}


def predict(v, mm, fix):
    """Distorted metric image points of the known points."""
    from vlib import optics
    cam = cam_of(v)
    res = []
    for p in fix:
        x, y = optics.project(cam, mm, p)
        res.append(optics.distort(x + v[7], y + v[8], v[9:16]))
    return res


def cost(v, mm, fix, obs, start, flags):
    s = sum((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 for a, b in zip(predict(v, mm, fix), obs))
    return s + sum((v[6 + i] - start[6 + i]) ** 2 for i in range(10) if flags[i])


def optimum(mm, fix, obs, start, flags, interf):
    """Least squares optimum of an independent model, from the same start."""
    import numpy as np
    from scipy.optimize import least_squares
    free = list(range(6)) + [6 + i for i in range(10) if flags[i]]
    scale = [1.0] * 3 + [.01] * 3 + [1.0, 1, 1, 1e-4, 1e-7, 1e-10, 1e-4, 1e-4, .01, .01]
    g = np.array(start[16:19])
    e1 = np.cross(g, [1.0, 2, 3])
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(g, e1)
    e2 /= np.linalg.norm(e2)

    def full(q):
        v = list(start)
        for k, p in enumerate(free):
            v[p] = start[p] + q[k] * scale[p]
        if interf:
            v[16:19] = list(g + 10 * q[-2] * e1 + 10 * q[-1] * e2)
        return v

    def fun(q):
        v = full(q)
        r = [c for a, b in zip(predict(v, mm, fix), obs) for c in (a[0] - b[0], a[1] - b[1])]
        return r + [v[p] - start[p] for p in free[6:]]
    q = least_squares(fun, np.zeros(len(free) + (2 if interf else 0)), xtol=1e-11, ftol=1e-11, gtol=1e-14, max_nfev=40).x
    return full(q)


def orienting(out):
    import numpy as np
    from openptv_python import orientation as ori
    from openptv_python.parameters import ControlPar, OrientPar
    from openptv_python.tracking_frame_buf import Target
    from groups.candidates import scene
    from vlib import optics
    import random
    rng = random.Random(out.seed * 7919 + out.args["part"])
    n = (1600 if out.thorough else 132) // out.args["parts"]
    U9 = 1e-9

    def block(k):
        xs = rng.choice([(-30, -10, 10, 30), (-40, 0, 40), (-35, -20, 5, 25)])
        zs = rng.choice([(-15, 0, 15), (-20, 20), (-12, -4, 4, 12)])
        pts = [[x + rng.uniform(-2, 2), y + rng.uniform(-2, 2), z + rng.uniform(-2, 2)] for x in xs for y in xs for z in zs]
        rng.shuffle(pts)
        return pts[:k] if k else pts

    def added(kind):
        if kind == "none":
            return [0.0] * 5 + [1.0, 0.0]
        return [rng.gauss(0, 1e-4), rng.choice([0, rng.gauss(0, 1e-7)]), 0.0, rng.gauss(0, 1e-5), rng.gauss(0, 1e-5),
                1 + rng.gauss(0, 1e-3), rng.gauss(0, 1e-3)]

    def near(v, wide=1.0):
        s = list(v)
        for i in range(3):
            s[i] += rng.gauss(0, 1.0) * wide
            s[3 + i] += rng.gauss(0, .005) * wide
        return s

    def cal_of(v):
        c = optics.make_cal(cam_of(v))
        c.update_rotation_matrix()
        return c

    def dots_of(pnr, xy):
        return [Target(pnr=p, x=x, y=y, n=5, nx=3, ny=2, sumg=100, tnr=-1) for p, (x, y) in zip(pnr, xy)]

    def image(obs, cpar):
        return [(x / cpar.pix_x + cpar.imx / 2.0, cpar.imy / 2.0 - y / cpar.pix_y) for x, y in obs]

    def mat_ok(cal):
        return bool(np.allclose(np.array(cal.ext_par.dm, float), optics.rot(vec(cal)[3:6]), atol=1e-9))

    def rows(dots):
        return [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in dots]

    for it in range(n):
        kind = rng.choice(["exact", "exact", "noisy", "noisy", "pulled", "glass", "fail", "fail", "fail"])
        media = rng.choice(["air", "water", "water", "tilted"])
        if kind == "glass":
            media = "tilted"
        cams, mm = scene(rng, 1, media)
        c = cams[0]
        truth = [*map(float, c["pos"]), *map(float, c["ang"]), c["cc"], c["xh"], c["yh"], *added(rng.choice(["none", "some", "some"])),
                 *map(float, c["glass"])]
        cpar = ControlPar(num_cams=1, imx=1280, imy=1024, pix_x=.012, pix_y=rng.choice([.012, .011]), mm=optics.make_mm(mm))
        pts = block(0 if kind != "fail" else rng.choice([3, 6, 9, 12]))
        nfix = len(pts)
        p_on = rng.choice([0, .2, .4])
        flags = [1 if rng.random() < p_on else 0 for _ in INNER]
        interf = 1 if kind == "glass" else 0
        use = rng.choice([0, 0, 0, 1, 2, 3]) if nfix > 30 or kind == "fail" else 0
        start = near(truth)
        if kind == "glass":
            g = np.array(truth[16:19])
            perp = np.cross(g, [rng.gauss(0, 1) for _ in range(3)])
            truth[16:19] = [float(x) for x in g + perp / np.linalg.norm(perp) * rng.uniform(.2, 1.0)]
            flags = [f if rng.random() < .3 else 0 for f in flags]
        if kind == "pulled":
            for i in range(10):
                if flags[i]:
                    start[6 + i] += rng.gauss(0, 1) * ([.02, .02, .02, 5e-5, 1e-7, 1e-11, 1e-5, 1e-5, 1e-3, 1e-3][i])
        obs = predict(truth, mm, pts)
        if kind == "noisy":
            s = rng.choice([2e-3, 6e-3, 2e-2])
            obs = [(x + rng.gauss(0, s), y + rng.gauss(0, s)) for x, y in obs]
        if kind == "fail":
            how = rng.choice(["scrambled", "wild", "far", "rough", "rough", "few"])
            if how == "scrambled":
                rng.shuffle(obs)
            elif how == "wild":
                obs = [(rng.uniform(-40, 40), rng.uniform(-40, 40)) for _ in obs]
            elif how == "rough":
                s = rng.choice([.05, .2, 1.0])
                obs = [(x + rng.gauss(0, s), y + rng.gauss(0, s)) for x, y in obs]
                flags = [1 if rng.random() < .6 else 0 for _ in INNER]
            elif how == "far":
                start = near(truth, rng.choice([60, 150, 300]))
        xy = image(obs, cpar)
        # dots that are missing or belong to another point
        pnr = list(range(nfix))
        for i in range(nfix):
            if rng.random() < rng.choice([0, .05, .2]):
                pnr[i] = rng.choice([-999, -999, (i + 1) % nfix, -1])
        chosen = [i for i in range(nfix) if pnr[i] == i and (use == 0 or (use == 1 and i % 2) or (use == 2 and i % 2 == 0)
                                                              or (use == 3 and i % 3))]
        for i in range(nfix):
            if i not in chosen and rng.random() < .5:
                xy[i] = (rng.uniform(0, 1280), rng.uniform(0, 1024))
        op = OrientPar(useflag=use, interfflag=interf, **dict(zip(INNER, flags)))
        via = rng.choice(["orient", "full"])
        if all(pnr[i] == i for i in range(nfix)) and via == "full" and rng.random() < .5:
            via = "array"

        def go(start_cal, dots, known):
            sb = np.zeros(20)
            if via == "orient":
                r, err = out.call(ori.orient, start_cal, cpar, nfix, known, dots, op, sb)
                if r is None:
                    return None, err, [], sb
                return r, err, [], sb
            d = dots if via == "full" else np.array([[t.x, t.y] for t in dots])
            r, err = out.call(ori.full_calibration, start_cal, known, d, cpar, op)
            if err:
                return None, err, [], sb
            return r[0], err, [int(u) for u in r[1]], r[2]

        known = np.array(pts, float)
        cal = cal_of(start)
        before = vec(cal)
        dots = dots_of(pnr, xy)
        keep = (rows(dots), known.copy(), op.__dict__.copy() if hasattr(op, "__dict__") else copy.deepcopy(op))
        res, err, used, sb = go(cal, dots, known)
        argument = rows(dots) == keep[0] and np.array_equal(known, keep[1]) and keep[2] == op.__dict__
        after = vec(cal)
        # twin: other dots for the points that are not chosen
        cal2 = cal_of(start)
        pnr2, xy2, pts2 = list(pnr), list(xy), [list(p) for p in pts]
        if via != "array":
            for i in range(nfix):
                if i not in chosen:
                    if rng.random() < .6 or pnr2[i] != i:
                        pnr2[i] = rng.choice([-999, -1, (i + 3) % nfix if nfix > 3 else -999])
                    xy2[i] = (xy2[i][0] + rng.uniform(1, 300), xy2[i][1] - rng.uniform(1, 300))
                    if rng.random() < .3:
                        pts2[i] = [v + rng.uniform(-5, 5) for v in pts2[i]]
        else:
            for i in range(nfix):
                if i not in chosen:
                    xy2[i] = (xy2[i][0] + rng.uniform(1, 300), xy2[i][1] - rng.uniform(1, 300))
        res2, err2, used2, _ = go(cal2, dots_of(pnr2, xy2), np.array(pts2, float))
        # again, now that another has been run
        again = {"dev": steps(after, after, TINY), "same": True}
        if kind != "fail":
            cal3 = cal_of(start)
            res3, err3, used3, sb3 = go(cal3, dots_of(pnr, xy), np.array(pts, float))
            again = {"dev": steps(vec(cal3), after, TINY), "same": (res3 is None) == (res is None)}
        rec = {"t": "orient", "kind": kind, "via": via, "pnr": pnr, "use": use, "flags": flags, "glass": interf,
               "ok": res is not None, "moved": steps(before, after, TINY), "mat": mat_ok(cal), "arg": bool(argument),
               "twin": {"ok": res2 is not None, "dev": steps(vec(cal2), after, TINY), "used": used2}, "used": used,
               "again": again, "nres": -1, "dev": [], "resdev": 0, "obj": [0, 0], "err": 0, "errs": 0,
               "enough": kind != "fail" and len(chosen) >= 12, "why": (err or "")[:60]}
        if res is not None:
            # orient reports residuals in one row, those of the chosen points first and nothing more but the ten of the model
            flat = [float(x) for x in np.ravel(res)]
            m = 2 * len(chosen)
            rec["nres"] = len(flat) if via != "orient" else m + sum(1 for x in flat[m + 10:] if x != 0) if len(flat) >= m else len(flat)
            rec["dev"] = steps(after, truth, UNIT)
            cf, co = [pts[i] for i in chosen], [(
                (xy[i][0] - cpar.imx / 2.0) * cpar.pix_x, (cpar.imy / 2.0 - xy[i][1]) * cpar.pix_y) for i in chosen]
            fin = predict(after, mm, cf)
            mine = [q for a, b in zip(fin, co) for q in (a[0] - b[0], a[1] - b[1])]
            worst = max((abs(a - b) for a, b in zip(mine, flat)), default=0) if len(flat) >= m else 1
            rec["resdev"] = min(10 ** 9, int(worst / 1e-7)) if worst == worst else 10 ** 9
            if kind != "fail":
                best = optimum(mm, cf, co, before, flags, interf)
                a, b = cost(after, mm, cf, co, before, flags), cost(best, mm, cf, co, before, flags)
                rec["obj"] = [min(2 * 10 ** 9, int(a / 1e-10)), min(2 * 10 ** 9, int(b / 1e-10))]
                numbers = 18 if interf else 16
                # the lens terms that may change: where the optimum moves one clearly, the result does as well (in thousandths)
                FLOOR = [0, 0, 0, 7.5e-6, 1e-7, 1.3e-9, 7e-7, 4e-6, 6e-5, 3e-5]
                rec["lens"] = [[7 + i, min(10 ** 8, int(1000 * abs(best[6 + i] - before[6 + i]) / FLOOR[i])),
                                min(10 ** 8, int(1000 * abs(best[6 + i] - after[6 + i]) / FLOOR[i]))]
                               for i in range(3, 10) if flags[i] and kind in ("noisy", "pulled")]
                out.count("lens", sum(1 for x in rec["lens"] if x[1] > 1000))
                s0 = math.sqrt(a / max(1, m + 10 - numbers))
                rec["err"] = min(10 ** 9, int(abs(float(sb[19]) - s0) / U9))
                rec["s0"] = min(10 ** 9, int(s0 / U9))
                e = max(abs(float(x)) for x in sb[:numbers])
                rec["errs"] = min(10 ** 9, int(e / 1e-6)) if e == e else 10 ** 9
                if kind in ("exact", "glass"):
                    out.count("exact")
        rec.setdefault("s0", 0)
        rec.setdefault("lens", [])
        out.rec("ori", rec)
        out.count("orient." + kind + (how if kind == "fail" else "") + (".ok" if res is not None else ".failed"))

    # ---- coarse orientation from few points
    for it in range(n // 2):
        media = rng.choice(["air", "water", "tilted"])
        cams, mm = scene(rng, 1, media)
        c = cams[0]
        truth = [*map(float, c["pos"]), *map(float, c["ang"]), c["cc"], c["xh"], c["yh"], *added("none"), *map(float, c["glass"])]
        cpar = ControlPar(num_cams=1, imx=1280, imy=1024, pix_x=.012, pix_y=.012, mm=optics.make_mm(mm))
        while True:
            pts = block(rng.choice([4, 5, 8, 16]))
            q = np.array(pts) - np.mean(pts, axis=0)
            if np.linalg.svd(q, compute_uv=False)[1] > 25:
                break
        noisy = rng.random() < .4
        obs = predict(truth, mm, pts)
        if noisy:
            s = rng.choice([5e-3, 2e-2])
            obs = [(x + rng.gauss(0, s), y + rng.gauss(0, s)) for x, y in obs]
        start = near(truth, rng.choice([1, 3]))
        start[9:16] = added(rng.choice(["none", "some", "some"]))
        for k in range(9, 16):                           # any part of the distortion alone
            if rng.random() < .5:
                start[k] = 1.0 if k == 14 else 0.0
        cal = cal_of(start)
        before = vec(cal)
        xy = np.array(image(obs, cpar))
        via = rng.choice(["external", "raw"])
        if via == "external":
            res, err = out.call(ori.external_calibration, cal, np.array(pts, float), xy, cpar)
        else:
            res, err = out.call(ori.raw_orient, cal, cpar, len(pts), np.array(pts, float), dots_of(list(range(len(pts))), xy))
        after = vec(cal)
        base = before[:9] + truth[9:16] + before[16:]
        best = optimum(mm, pts, obs, base, [0] * 10, 0)
        a, b = cost(after, mm, pts, obs, base, [0] * 10), cost(best, mm, pts, obs, base, [0] * 10)
        out.rec("ori", {"t": "raw", "n": len(pts), "noisy": noisy, "ok": bool(res) and not err, "moved": steps(before, after, TINY),
                        "dist": steps(after[9:16], truth[9:16], TINY[9:16]), "dev": steps(after, truth, UNIT), "mat": mat_ok(cal),
                        "obj": [min(2 * 10 ** 9, int(a / 1e-10)), min(2 * 10 ** 9, int(b / 1e-10))]})
        out.count("raw." + ("noisy" if noisy else "exact"))

    # ---- derivatives of the image point of a known point
    for it in range(n):
        media = rng.choice(["air", "water", "tilted"])
        cams, mm = scene(rng, 1, media)
        c = cams[0]
        v = [*map(float, c["pos"]), *map(float, c["ang"]), c["cc"], c["xh"], c["yh"], *added(rng.choice(["none", "some"])), *map(float, c["glass"])]
        p = [rng.uniform(-40, 40), rng.uniform(-40, 40), rng.uniform(-20, 20)]
        cpar = ControlPar(num_cams=1, imx=1280, imy=1024, pix_x=.012, pix_y=.012, mm=optics.make_mm(mm))
        cal = cal_of(v)
        dp, da = rng.choice([(5e-3, 5e-5), (1e-2, 1e-4)])
        r, err = out.call(ori.num_deriv_exterior, cal, cpar, dp, da, np.array(p))
        want, got = [], []
        if not err:
            for k in range(6):
                h = 1e-3 if k < 3 else 1e-5
                lo, hi = list(v), list(v)
                lo[k] -= h
                hi[k] += h
                a, b = predict(lo, mm, [p])[0], predict(hi, mm, [p])[0]
                want += [(b[0] - a[0]) / (2 * h), (b[1] - a[1]) / (2 * h)]
                got += [float(r[0][k]), float(r[1][k])]
        out.rec("ori", {"t": "deriv", "err": err, "want": [int(round(w * 1e5)) for w in want], "got": [int(round(w * 1e5)) for w in got],
                        "moved": steps(v, vec(cal), TINY), "mat": mat_ok(cal)})
        out.count("deriv")
