"""C28: the measured volume and the ends of epipolar lines."""
import os

from groups.refraction import fix as _fix

S = 10000


def fix(v, s=S):
    return _fix(v, s)


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCVolume", "MCVolumeBig.cfg" if ctx.thorough else None, min_states=10000, workers=4, timeout=3000)
    d = ctx.drive("volume", "limits")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "volume.ndjson"), "TraceVolume", lambda c: {"C28"}, expect_min=700,
                     label="volumes and lines", timeout=2500)
    m.result()
    ctx.assumptions += ["rays of the image are not parallel to the planes of constant depth"]


def angles(R):
    import math
    return [math.atan2(-R[1][2], R[2][2]), math.asin(max(-1.0, min(1.0, R[0][2]))), math.atan2(-R[0][1], R[0][0])]


def thirds():
    """Rotations whose entries are thirds: integer matrices to be divided by 3."""
    import itertools
    import numpy as np
    rows = [r for r in itertools.product([-2, -1, 1, 2], repeat=3) if sum(q * q for q in r) == 9]
    res = []
    for a in rows:
        for b in rows:
            if np.dot(a, b) == 0:
                res.append(np.array([a, b, np.cross(a, b) // 3]))
    return res


def layers(rng, top, steep=1):
    """Two layers below the height top."""
    near = [top - rng.randint(45, 90) for _ in range(2)]
    far = [top - rng.randint(0, 40) for _ in range(2)]
    if rng.random() < .3:
        near[1], far[1] = near[0], far[0]
    x0 = rng.randint(-60, 20)
    return {"x": [x0, x0 + rng.choice([steep, 10, 40, 77, 100])], "near": near, "far": far}


def limits(out):
    import numpy as np
    from groups.refraction import general_scene
    from groups.triangulation import rotations
    from vlib import optics
    from openptv_python import epi, multimed as mu, orientation as ori
    from openptv_python.parameters import ControlPar, VolumePar
    rng = out.rng
    rots = [m for m in rotations() if m[2][2] == 1] * 6 + [m for m in thirds() if m[2][2] > 0]
    big = out.thorough

    def vpar_of(v):
        return VolumePar(x_lay=[float(q) for q in v["x"]], z_min_lay=[float(q) for q in v["near"]], z_max_lay=[float(q) for q in v["far"]])

    def cpar_of(ncam, w, h, pix, mp):
        c = ControlPar(num_cams=ncam)
        c.set_image_size((w, h))
        c.set_pixel_size(pix)
        c.mm = mp
        return c

    def volume(r, start, v, cpar, cals):
        (x0, x1), (y0, y1) = start
        junk = rng.choice([(0.0, 0.0), (1e6, -1e6), (-3.0, 500.0)])
        b, e = out.call(mu.volumedimension, float(x1), float(x0), float(y1), float(y0), junk[0], junk[1], vpar_of(v), cpar, cals)
        if e:
            return e
        r["box"] = fix([float(q) for q in b])
        return ""

    def starts():
        return rng.choice([[[0, 0], [0, 0]], [[rng.randint(-300, 0), rng.randint(0, 300)], [rng.randint(-300, 0), rng.randint(0, 300)]],
                           [[rng.randint(-60, 0), rng.randint(0, 60)], [rng.randint(-60, 0), rng.randint(0, 60)]]])

    for it in range(2500 if big else 260):               # air, whole numbers
        ncam = rng.randint(1, 4)
        mm = rng.choice([{"n1": 1.0, "n2": 1.0, "n3": 1.0, "d": 1.0}, {"n1": 1.33, "n2": 1.33, "n3": 1.33, "d": 5.0}])
        hx, hy = rng.randint(2, 9), rng.randint(2, 9)
        pix = [rng.choice([.01, .5, .125]), rng.choice([.01, .25])]
        g = rng.randint(60, 90)
        rays, cals, first = [], [], None
        while len(cals) < ncam:
            M = rots[rng.randrange(len(rots))]
            den = 3 if abs(abs(int(np.round(np.linalg.det(np.array(M))))) - 27) < 1 else 1
            if M[2][2] * 2 < den or np.linalg.det(np.array(M)) < 0:
                continue
            cc, xh, yh = rng.randint(15, 60), rng.choice([0, 0, 1, -1]), rng.choice([0, 0, 1, -2])
            P = [rng.randint(-90, 90), rng.randint(-90, 90), g + rng.randint(30, 200)]
            corner = [[int(q) for q in np.array(M) @ np.array([a - xh, b - yh, -cc])] for a in (-hx, hx) for b in (-hy, hy)]
            if any(3 * c[2] > -cc * den for c in corner):
                continue
            cam = {"pos": P, "ang": angles(np.array(M, float) / den), "cc": float(cc), "xh": float(xh), "yh": float(yh), "glass": [0.0, 0.0, float(g)]}
            cals.append(optics.make_cal(cam))
            rays += [{"p": P, "d": c} for c in corner]
            if first is None:
                first = (M, cc, P, cam)
        v = layers(rng, g - rng.randint(0, 20))
        # sizes in pixels that make the half sizes whole numbers of the same unit
        w, h = int(round(2 * hx / pix[0])), int(round(2 * hy / pix[1]))
        mp = optics.make_mm(mm)
        st = starts()
        r = {"t": "exact", "rays": rays, "v": v, "start": st}
        r["err"] = volume(r, st, v, cpar_of(ncam, w, h, tuple(pix), mp), cals)
        out.rec("volume", r)
        out.count("exact.cams%d" % ncam)
        if v["near"][0] != v["near"][1] or v["far"][0] != v["far"][1]:
            out.count("tilted-layers")

        # the single camera: an image point in whole numbers
        M, cc, P, cam = first
        a, b = rng.randint(-hx, hx), rng.randint(-hy, hy)
        d = [int(q) for q in np.array(M) @ np.array([a, b, -cc])]
        v = dict(v)
        v["near"] = [g - rng.randint(20, 40) for _ in range(2)]
        v["far"] = [g - rng.randint(0, 19) for _ in range(2)]
        v["x"] = [rng.randint(-20, 0), rng.randint(1, 20)]
        z = g - rng.randint(0, 99)
        r = {"t": "mid", "ray": {"p": P, "d": d}, "v": v, "glass": g, "z": z, "err": ""}
        errs = []
        q, e = out.call(epi.epi_mm_2D, float(a), float(b), cals[0], mp, vpar_of(v))
        errs.append(e)
        if not e:
            r["mid"] = fix(q)
        q, e = out.call(mu.move_along_ray, float(z), np.array(P, float), np.array(d, float) / np.linalg.norm(d))
        errs.append(e)
        if not e:
            r["move"] = fix(q)
        cp = cpar_of(1, w, h, tuple(pix), mp)
        q, e = out.call(ori.point_positions, np.array([[[float(a), float(b)]], [[0.0, 0.0]]]), mp, cals[:1], vpar_of(v))
        errs.append(e)
        if not e:
            r["single"], r["rcm"] = fix(q[0][0]), fix(q[1][0])
        r["err"] = next((x for x in errs if x), "")[:80]
        if abs(d[2]) * 2 > cc:
            out.rec("volume", r)
            out.count("mid")

    def tank():
        """Cameras of one tank whose glass is not too oblique, or None."""
        cam, mm, nrm, gap = general_scene(rng)
        if abs(nrm[2]) < .85:
            return None
        return cam, mm, nrm, gap

    n = 0
    while n < (3000 if big else 260):                    # glass and liquid, distortion
        t = tank()
        if t is None:
            continue
        cam, mm, nrm, gap = t
        up = 1 if nrm[2] > 0 else -1
        ncam = rng.randint(1, 4)
        cams = [cam]
        while len(cams) < ncam:
            c = dict(cam)
            c["pos"] = [float(q) for q in np.array(cam["pos"]) + np.cross(nrm, [rng.uniform(-80, 80) for _ in range(3)])]
            aim = nrm * (gap - rng.uniform(0, 80)) + np.cross(nrm, [rng.uniform(-30, 30) for _ in range(3)])
            c["ang"] = [float(q) for q in optics.look_at(c["pos"], aim, rng.uniform(-3.1, 3.1))]
            c["cc"] = rng.uniform(20, 100)
            c["xh"], c["yh"] = rng.uniform(-.5, .5), rng.uniform(-.5, .5)
            c["added"] = [rng.gauss(0, 5e-5), rng.gauss(0, 2e-8), 0.0, rng.gauss(0, 1e-5), rng.gauss(0, 1e-5), rng.uniform(.97, 1.03), rng.gauss(0, .01)]
            cams.append(c)
        w, h, pix = rng.choice([640, 1280]), rng.choice([480, 1024]), rng.choice([.005, .01, .0085])
        top = int(up * gap) - rng.randint(0, 20) if up > 0 else rng.randint(0, 60) - int(gap) + 90
        v = layers(rng, top, 10)
        cross, ok = [], True
        wide = (min(v["near"]), max(v["far"]))
        for c in cams:
            for a in (0, w):
                for b in (0, h):
                    x, y = optics.pixel_to_flat(c, a, b, w, h, pix)
                    try:
                        p, u = optics.trace(c, mm, x, y)
                    except ValueError:
                        ok = False
                        break
                    r0 = optics.rot(c["ang"]) @ np.array([x, y, -c["cc"]])
                    if nrm @ r0 > -.5 * np.linalg.norm(r0) or abs(u[2]) < .4:
                        ok = False
                        break
                    cross += [fix(optics.at_z(p, u, z)[:2]) for z in wide]
        if not ok:
            out.count("oblique-skipped")
            continue
        mp = optics.make_mm(mm)
        cals = [optics.make_cal(c) for c in cams]
        cpar = cpar_of(ncam, w, h, (pix, pix), mp)
        st = starts()
        r = {"t": "box", "cross": cross, "v": v, "start": st}
        r["err"] = volume(r, st, v, cpar, cals)
        out.rec("volume", r)
        out.count("box.cams%d" % ncam)
        n += 1

        # a line from the first to another camera (or to itself)
        other = cams[-1]
        x, y = optics.pixel_to_flat(cam, rng.uniform(0, w), rng.uniform(0, h), w, h, pix)
        p, u = optics.trace(cam, mm, x, y)
        zs = [v[k][0] + (p[0] - v["x"][0]) * (v[k][1] - v[k][0]) / (v["x"][1] - v["x"][0]) for k in ("near", "far")]
        ends = [optics.at_z(p, u, z) for z in zs]
        mid = optics.at_z(p, u, (zs[0] + zs[1]) / 2)

        def seen(X):
            return nrm @ (X - p) <= 1e-9 and np.linalg.norm(X - p) < 400
        if all(seen(X) for X in ends):
            r = {"t": "line", "v": v, "startx": fix(p[0]), "refz": fix(zs), "refmid": fix(mid), "err": ""}
            errs = []
            mag = [float(np.linalg.norm(X - np.array(other["pos"]))) / other["cc"] for X in ends]
            ref = [np.array(optics.project(other, mm, X)) for X in ends]
            if max(abs(q) for q in np.ravel(ref)) < 2 * other["cc"]:
                q, e = out.call(epi.epi_mm, x, y, cals[0], cals[-1], mp, vpar_of(v))
                errs.append(e)
                if not e:
                    r["near"], r["far"] = fix(np.array(q[:2]) * mag[0]), fix(np.array(q[2:]) * mag[1])
                    r["refnear"], r["reffar"] = fix(ref[0] * mag[0]), fix(ref[1] * mag[1])
                q, e = out.call(epi.epi_mm_2D, x, y, cals[0], mp, vpar_of(v))
                errs.append(e)
                if not e:
                    r["mid"] = fix(q)
                q, e = out.call(ori.point_positions, np.array([[[x, y]]]), mp, cals[:1], vpar_of(v))
                errs.append(e)
                if not e:
                    r["single"], r["rcm"] = fix(q[0][0]), fix(q[1][0])
                r["err"] = next((q for q in errs if q), "")[:80]
                out.rec("volume", r)
                out.count("line" if ncam > 1 else "line.own-camera")

        # the curve in pixels, for layers of equal depth
        z = [v["near"][0], v["far"][0]]
        k = rng.choice([2, 3, 5, 11])
        px = (rng.uniform(0, w), rng.uniform(0, h))
        x, y = optics.pixel_to_flat(cam, px[0], px[1], w, h, pix)
        p, u = optics.trace(cam, mm, x, y)
        zs = [z[0] + i * (z[1] - z[0]) / (k - 1) for i in range(k)]
        pts = [optics.at_z(p, u, q) for q in zs]
        if all(seen(X) for X in pts):
            mag = [pix * float(np.linalg.norm(X - np.array(other["pos"]))) / other["cc"] for X in pts]
            ref = [optics.to_pixel(other, mm, X, w, h, pix) for X in pts]
            if max(abs(q) for q in np.ravel(ref)) < 5000:
                flat = {"x": v["x"], "near": [z[0], z[0]], "far": [z[1], z[1]]}
                q, e = out.call(epi.epipolar_curve, np.array(px), cals[0], cals[-1], k, cpar, vpar_of(flat))
                r = {"t": "curve", "z": z, "refz": fix(zs), "err": e[:80] if e else "", "ref": [fix((np.array(a) - [w / 2, h / 2]) * m) for a, m in zip(ref, mag)]}
                if not e:
                    r["points"] = [fix((np.array(a) - [w / 2, h / 2]) * m) for a, m in zip(np.asarray(q), mag)]
                out.rec("volume", r)
                out.count("curve")
