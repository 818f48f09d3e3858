"""C26: pixel, metric, distorted and flat coordinates, and the sorted list of a camera."""
import os

from groups.refraction import fix

U = 1000000


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCConversions", "MCConversionsBig.cfg" if ctx.thorough else None, min_states=39000, workers=3, timeout=3000)
    d = ctx.drive("conversions", "coordinates")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "conv.ndjson"), "TraceConversions", lambda c: {"C26"}, expect_min=1500,
                     label="coordinates", timeout=2500)
    m.result()
    ctx.assumptions += ["distortions of at most about a seventh of the position", "targets have different numbers"]


def coordinates(out):
    import numpy as np
    from vlib import optics
    from openptv_python import trafo as tf
    from openptv_python.calibration import Calibration
    from openptv_python.constants import COORD_UNUSED
    from openptv_python.parameters import ControlPar
    from openptv_python.tracking_frame_buf import Target, get_by_pnrs, match_coords, matched_coords_as_arrays
    rng = out.rng
    big = out.thorough

    for it in range(6000 if big else 400):               # pixels and metric positions
        w, h = rng.choice([(1280, 1024), (1024, 1280), (64, 48), (7, 5), (rng.randint(1, 4000), rng.randint(1, 4000)), (2048, 2048)])
        px, py = rng.choice([(12, 12), (10, 15), (17, 6), (rng.randint(1, 40), rng.randint(1, 40))])
        cpar = ControlPar(num_cams=1, imx=w, imy=h, pix_x=px / 1000, pix_y=py / 1000)
        n = rng.randint(1, 5)
        pts = [[2 * rng.randint(-20, w + 20) + rng.choice([0, 0, 1]), 2 * rng.randint(-20, h + 20) + rng.choice([0, 0, 1])] for _ in range(n)]
        pts[0] = rng.choice([pts[0], [0, 0], [w, h], [2 * w, 2 * h], [2 * w, 0]])
        r = {"t": "pixel", "cam": {"w": w, "h": h, "px": px, "py": py}, "pts": pts, "err": ""}
        errs, met, back = [], [], []
        for p in pts:
            v, e = out.call(tf.pixel_to_metric, p[0] / 2, p[1] / 2, cpar)
            errs.append(e)
            met.append(fix(v, 2000) if not e else [])
            v, e = out.call(tf.metric_to_pixel, *(v or (0, 0)), cpar)
            errs.append(e)
            back.append(fix(v, 2) if not e else [])
        r["metric"], r["back"] = met, back
        exact = np.array([[(p[0] - w) * px / 2000, (h - p[1]) * py / 2000] for p in pts])
        v, e = out.call(tf.arr_metric_to_pixel, exact if n > 1 or rng.random() < .5 else exact[0], cpar)
        errs.append(e)
        r["arrback"] = fix(v, 2) if not e else []
        whole = np.array([[p[0] // 2, p[1] // 2] for p in pts], dtype=np.int32)
        v, e = out.call(tf.arr_pixel_to_metric, whole, w, h, px / 1000, py / 1000)
        errs.append(e)
        r["whole"], r["arrmetric"] = (2 * whole).tolist(), fix(v, 2000) if not e else []
        r["err"] = next((x for x in errs if x), "")[:80]
        out.rec("conv", r)
        out.count("pixel")

    for it in range(6000 if big else 500):               # distortion on the lattice
        v = [rng.randint(-12, 12), rng.randint(-12, 12)]
        if rng.random() < .1:
            v[rng.randrange(2)] = 0
        a = {"k1": rng.choice([0, rng.randint(-40, 40)]), "k2": rng.choice([0, rng.randint(-30, 30)]), "k3": rng.choice([0, 0, rng.randint(-4, 4)]),
             "p1": rng.choice([0, rng.randint(-30, 30)]), "p2": rng.choice([0, rng.randint(-30, 30)]), "scale": rng.choice([100, 100, rng.randint(95, 105)])}
        if rng.random() < .3:
            a = {"k1": 0, "k2": 0, "k3": 0, "p1": 0, "p2": 0, "scale": a["scale"]}
            a[rng.choice(["k1", "k2", "k3", "p1", "p2"])] = rng.choice([-4, 3, 20])
            a["k3"] = max(-4, min(4, a["k3"]))
        ap = [a["k1"] * 1e-5, a["k2"] * 1e-7, a["k3"] * 1e-9, a["p1"] * 1e-5, a["p2"] * 1e-5, a["scale"] / 100, 0.0]
        r2 = (v[0] ** 2 + v[1] ** 2) / 4
        if abs(ap[0] * r2) + abs(ap[1] * r2 ** 2) + abs(ap[2] * r2 ** 3) > .12:
            continue
        pp = rng.choice([(0, 0), (0, 0), (rng.randint(-4, 4), rng.randint(-4, 4))])       # principal point in half mm
        cal = Calibration()
        cal.set_primary_point(np.array([pp[0] / 2, pp[1] / 2, 50.0]))
        cal.set_added_par(np.array(ap))
        r = {"t": "brown", "v": v, "a": a, "tol": 0, "err": ""}
        q, e = out.call(tf.flat_to_dist, (v[0] - pp[0]) / 2, (v[1] - pp[1]) / 2, cal)
        r["dist"] = fix(q, U) if not e else []
        errs = [e]
        tol = rng.choice([None, 1e-5, 1e-9, 1e-12])
        if not e:
            f, e = out.call(tf.dist_to_flat, *q, cal, *([] if tol is None else [tol]))
            errs.append(e)
            r["flat"] = fix(f, U) if not e else []
        r["tol"] = 1 if tol in (1e-9, 1e-12) else 0
        r["at"] = [500000 * (v[0] - pp[0]), 500000 * (v[1] - pp[1])]
        r["err"] = next((x for x in errs if x), "")[:80]
        out.rec("conv", r)
        out.count("brown")

    for it in range(6000 if big else 500):               # any distortion with shear, both ways round
        cam = {"xh": rng.choice([0.0, rng.uniform(-1, 1)]), "yh": rng.choice([0.0, rng.uniform(-1, 1)]), "cc": 60.0, "pos": [0, 0, 100.0], "ang": [0, 0, 0], "glass": [0, 0, 1.0],
               "added": [rng.gauss(0, 4e-4), rng.gauss(0, 3e-6), rng.gauss(0, 3e-9), rng.gauss(0, 2e-4), rng.gauss(0, 2e-4), rng.uniform(.95, 1.05), rng.choice([0.0, rng.uniform(-.05, .05)])]}
        x, y = rng.uniform(-7, 7), rng.uniform(-7, 7)
        r2 = (x + cam["xh"]) ** 2 + (y + cam["yh"]) ** 2
        a = cam["added"]
        if abs(a[0] * r2) + abs(a[1] * r2 ** 2) + abs(a[2] * r2 ** 3) > .12:
            continue
        cal = optics.make_cal(cam)
        tol = rng.choice([None, 1e-5, 1e-9])
        r = {"t": "round", "at": fix([x, y], U), "tol": 1 if tol == 1e-9 else 0, "err": ""}
        q, e = out.call(tf.flat_to_dist, x, y, cal)
        errs = [e]
        f, e = out.call(tf.dist_to_flat, *(q or (0, 0)), cal, *([] if tol is None else [tol]))
        errs.append(e)
        b, e = out.call(tf.flat_to_dist, *(f or (0, 0)), cal)
        errs.append(e)
        r["refdist"] = fix(optics.distort(x + cam["xh"], y + cam["yh"], a), U)
        r["dist"], r["flat"], r["again"] = fix(q or (9e9, 9e9), U), fix(f or (9e9, 9e9), U), fix(b or (9e9, 9e9), U)
        r["err"] = next((x for x in errs if x), "")[:80]
        out.rec("conv", r)
        out.count("round")

    for it in range(3000 if big else 300):               # the list of a camera
        w, h, pix = rng.choice([(1280, 1024, .012), (640, 900, .01), (200, 150, .03)])
        cam = {"xh": rng.choice([0.0, rng.uniform(-1, 1)]), "yh": rng.choice([0.0, rng.uniform(-1, 1)]), "cc": 60.0, "pos": [0, 0, 100.0], "ang": [0, 0, 0], "glass": [0, 0, 1.0],
               "added": [rng.gauss(0, 2e-4), rng.gauss(0, 1e-6), 0, rng.gauss(0, 1e-4), rng.gauss(0, 1e-4), rng.uniform(.97, 1.03), rng.choice([0.0, rng.uniform(-.03, .03)])]}
        if rng.random() < .3:
            cam["added"] = optics.NODIST
        cal = optics.make_cal(cam)
        cpar = ControlPar(num_cams=1, imx=w, imy=h, pix_x=pix, pix_y=pix)
        n = rng.choice([0, 1, 2, 3, 5, 9, 20])
        nums = rng.sample(range(60), n) if rng.random() < .6 else list(range(n))
        targs = [Target(pnr=nums[i], x=rng.uniform(0, w), y=rng.uniform(0, h), n=rng.randint(1, 9), nx=1, ny=1, sumg=9, tnr=-1) for i in range(n)]
        if n > 1 and rng.random() < .3:                   # the same column
            targs[1].x = targs[0].x
        order = rng.choice(["none", "y", "x"])
        if order != "none":
            targs.sort(key=lambda t: getattr(t, order))
        reset = rng.random() < .3
        want = [{"pnr": i if reset else t.pnr, "x": fix(optics.pixel_to_flat(cam, t.x, t.y, w, h, pix)[0], U), "y": fix(optics.pixel_to_flat(cam, t.x, t.y, w, h, pix)[1], U)}
                for i, t in enumerate(targs)]
        before = [(t.x, t.y, t.n, t.tnr) for t in targs]
        mc, e = out.call(match_coords, targs, cpar, cal, 1e-7, reset)
        errs = [e]
        r = {"t": "list", "want": want, "err": "", "kept": int(before == [(t.x, t.y, t.n, t.tnr) for t in targs]), "nums": [int(t.pnr) for t in targs]}
        if not e:
            r["got"] = [{"pnr": int(c.pnr), "x": fix(c.x, U), "y": fix(c.y, U)} for c in mc]
            v, e = out.call(matched_coords_as_arrays, mc)
            errs.append(e)
            r["arr"] = [{"pnr": int(v[1][i]), "x": fix(v[0][i][0], U), "y": fix(v[0][i][1], U)} for i in range(len(v[1]))] if not e else []
            some = [q["pnr"] for q in want]
            rng.shuffle(some)
            some = some[:rng.randint(0, n)] + rng.choice([[], [77]])
            v, e = out.call(get_by_pnrs, mc, np.array(some, dtype=int))
            errs.append(e)
            r["asked"] = some
            r["answer"] = [fix(q, U) if q[0] != COORD_UNUSED else [] for q in v] if not e else []
        r["err"] = next((x for x in errs if x), "")[:80]
        out.rec("conv", r)
        out.count("list")
