"""C25: rays through the glass and projections back."""
import os

S = 100000      # positions
D = 1000000     # directions


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCRefraction", "MCRefractionBig.cfg" if ctx.thorough else None, min_states=15000, workers=2, timeout=3000)
    d = ctx.drive("refraction", "rays")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "rays.ndjson"), "TraceRefraction", lambda c: {"C25"}, expect_min=900,
                     label="rays and projections", timeout=2500)
    m.result()
    ctx.assumptions += ["camera on the far side of the glass, points on the near side", "image points that the glass does not reflect totally"]


# ------------------------------------------------------------------- drivers
TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (9, 40, 41), (4, 3, 5), (12, 35, 37), (11, 60, 61)]
BASES = [((0, 0, 3), (3, 0, 0)), ((0, 0, 3), (0, 3, 0)), ((0, 3, 0), (0, 0, 3)), ((1, 2, 2), (2, 1, -2)), ((1, 2, 2), (2, -2, 1)), ((2, 2, 1), (-1, 2, -2)),
         ((2, -1, 2), (1, -2, -2)), ((-1, 2, 2), (2, -1, 2)), ((2, 1, 2), (2, -2, -1)), ((-2, 1, 2), (1, -2, 2))]


def fix(v, s=S):
    import math
    if hasattr(v, "__len__"):
        return [fix(x, s) for x in v]
    if v is None or not math.isfinite(float(v)) or abs(float(v)) * s > 2e9:
        return 2000000000
    return int(round(float(v) * s))


def exact_scene(rng, k3=None):
    """A ray with rational angles in all media: (scene in integers, camera, media)."""
    import numpy as np
    from vlib import optics
    nrm, lat = rng.choice(BASES)
    sign = rng.choice([1, -1])
    lat = tuple(sign * v for v in lat)
    kind = rng.random()
    if kind < .08:
        a1 = a2 = a3 = (0, 1, 1)
        n = [1.0, rng.choice([1.0, 1.5]), rng.choice([1.0, 1.33])]
    else:
        while True:
            if kind < .2:
                a1 = a2 = a3 = rng.choice(TRIPLES)
            elif kind < .35:
                a1, a2 = rng.choice(TRIPLES), rng.choice(TRIPLES)
                a3 = a1
            else:
                a1, a2, a3 = (rng.choice(TRIPLES) for _ in range(3))
            n1 = rng.choice([1.0, 1.0, 1.0, 1.25, 1.33])
            n = [n1, n1 * a1[0] * a2[2] / (a1[2] * a2[0]), n1 * a1[0] * a3[2] / (a1[2] * a3[0])]
            if n1 <= n[1] <= 2.2 and n1 <= n[2] <= 2 and a1[0] / a1[2] < .75:
                break
    m = [(nrm[1] * lat[2] - nrm[2] * lat[1]) // 3, (nrm[2] * lat[0] - nrm[0] * lat[2]) // 3, (nrm[0] * lat[1] - nrm[1] * lat[0]) // 3]
    u, v = rng.randint(-9, 9), rng.randint(-9, 9)
    s = {"nrm": list(nrm), "lat": list(lat), "a1": list(a1), "a2": list(a2), "a3": list(a3),
         "k1": max(1, rng.randint(40, 150) // a1[1]) if a1[1] > 1 else rng.randint(30, 90), "k2": rng.choice([1, 1, 2]) if a2[1] > 1 else rng.randint(1, 6),
         "k3": (rng.randint(0, max(1, 60 // a3[1]))) if k3 is None else k3,
         "gap": rng.choice([0, 1, 5, 20, 33]), "foot": [u * lat[i] + v * m[i] for i in range(3)]}
    if s["gap"] == 0:
        s["gap"] = 1
    pos = np.array(s["foot"], float) + np.array(nrm, float) * (s["gap"] + s["k2"] * a2[1] + s["k1"] * a1[1])
    ray = (a1[0] * np.array(lat, float) - a1[1] * np.array(nrm, float)) / (3 * a1[2])
    # the axis of the camera: some degrees off the ray
    aim = pos + 100 * ray + np.array([rng.uniform(-15, 15) for _ in range(3)])
    ang = [float(q) for q in optics.look_at(pos, aim, rng.uniform(-3.1, 3.1))]
    cam = {"pos": [float(q) for q in pos], "ang": ang, "cc": rng.uniform(20, 60), "glass": [float(s["gap"] * q) for q in nrm],
           "xh": rng.choice([0.0, rng.uniform(-.2, .2)]), "yh": rng.choice([0.0, rng.uniform(-.2, .2)]),
           "added": rng.choice([optics.NODIST, [rng.gauss(0, 5e-5), rng.gauss(0, 2e-8), 0.0, rng.gauss(0, 1e-5), rng.gauss(0, 1e-5), rng.uniform(.97, 1.03), rng.gauss(0, .01)]])}
    return s, cam, {"n1": n[0], "n2": n[1], "n3": n[2], "d": float(3 * s["k2"] * a2[1])}, ray


def image_of(cam, ray):
    from vlib import optics
    w = optics.rot(cam["ang"]).T @ ray
    return -cam["cc"] * w[0] / w[2], -cam["cc"] * w[1] / w[2]


def general_scene(rng):
    """A camera in front of a glass in general position, and media in common use."""
    import numpy as np
    from vlib import optics
    nrm = np.array([rng.gauss(0, 1) for _ in range(3)]) if rng.random() < .3 else np.array([rng.gauss(0, .3), rng.gauss(0, .3), rng.choice([1, 1, 1, -1])])
    nrm /= np.linalg.norm(nrm)
    side = np.cross(nrm, [.3, .5, -.2])
    side /= np.linalg.norm(side)
    up = np.cross(nrm, side)
    gap, d, h = rng.uniform(1, 120), rng.choice([rng.uniform(.5, 20), 1e-3]), rng.uniform(60, 500)
    pos = nrm * (gap + d + h) + side * rng.uniform(-.4, .4) * h + up * rng.uniform(-.4, .4) * h
    mm = {"n1": 1.0, "n2": rng.choice([1.0, 1.0, 1.46, 1.5, 1.7, 1.2]), "n3": rng.choice([1.0, 1.33, 1.33, 1.49]), "d": d}
    if rng.random() < .15:
        mm["n1"] = mm["n2"] = mm["n3"] = rng.choice([1.0, 1.33])
    aim = nrm * (gap - rng.uniform(0, 80)) + side * rng.uniform(-30, 30) + up * rng.uniform(-30, 30)
    cam = {"pos": [float(q) for q in pos], "ang": [float(q) for q in optics.look_at(pos, aim, rng.uniform(-3.1, 3.1))], "cc": rng.uniform(20, 100),
           "glass": [float(q) for q in nrm * gap], "xh": rng.choice([0.0, rng.uniform(-.5, .5)]), "yh": rng.choice([0.0, rng.uniform(-.5, .5)]),
           "added": [rng.gauss(0, 5e-5), rng.gauss(0, 2e-8), 0.0, rng.gauss(0, 1e-5), rng.gauss(0, 1e-5), rng.uniform(.97, 1.03), rng.gauss(0, .01)]}
    return cam, mm, nrm, gap


def rays(out):
    import numpy as np
    from vlib import optics
    from openptv_python import imgcoord as ic, multimed as mu, ray_tracing as rt
    from openptv_python.parameters import MultimediaPar
    rng = out.rng

    def vec(v):
        return [float(q) for q in np.ravel(v)]

    for it in range(9000 if out.thorough else 700):
        s, cam, mm, ray = exact_scene(rng)
        cal, mp = optics.make_cal(cam), optics.make_mm(mm)
        x, y = image_of(cam, ray)
        nrm, lat = np.array(s["nrm"], float), np.array(s["lat"], float)
        near = np.array(cam["pos"]) + s["k1"] * (s["a1"][0] * lat - s["a1"][1] * nrm) + s["k2"] * (s["a2"][0] * lat - s["a2"][1] * nrm)
        P = near + s["k3"] * (s["a3"][0] * lat - s["a3"][1] * nrm)
        r = {"t": "exact", "s": s, "err": ""}
        errs = []
        v, e = out.call(rt.ray_tracing, x, y, cal, mp)
        errs.append(e)
        if not e:
            r["start"], r["dir"] = fix(v[0]), fix(v[1], D)
        v, e = out.call(mu.trans_cam_point, cal.ext_par, mp, cal.glass_par, P)
        errs.append(e)
        if not e:
            pt, cp, cc, z0 = v
            r["post"], r["crossp"], r["crossc"], r["z0"] = fix(pt), fix(cp), fix(cc), fix(z0)
            b, e = out.call(mu.back_trans_point, pt, mp, cal.glass_par, cp, cc)
            errs.append(e)
            if not e:
                r["back"] = fix(b)
        v, e = out.call(ic.flat_image_coord, P, cal, mp)
        errs.append(e)
        # image points, magnified to the distance of the point
        away = -(optics.rot(cam["ang"]).T @ (P - np.array(cam["pos"])))[2]
        mag = float(np.linalg.norm(P - np.array(cam["pos"]))) / cam["cc"]
        if not e:
            r["img"], r["ref"] = fix(np.array(v) * mag), fix(np.array([x, y]) * mag)
        v, e = out.call(ic.img_coord, P, cal, mp)
        errs.append(e)
        if not e:
            dx, dy = optics.distort(x + cam["xh"], y + cam["yh"], cam["added"])
            r["dimg"], r["dref"] = fix(np.array(v) * mag), fix(np.array([dx, dy]) * mag)
        r["err"] = next((q for q in errs if q), "")[:80]
        out.rec("rays", r)
        out.count("exact")
        if s["a1"][0] == 0:
            out.count("exact.normal-incidence")
        if mm["n1"] == mm["n2"] == mm["n3"]:
            out.count("exact.one-medium")

    for it in range(9000 if out.thorough else 700):
        cam, mm, nrm, gap = general_scene(rng)
        cal, mp = optics.make_cal(cam), optics.make_mm(mm)
        x, y = rng.uniform(-.25, .25) * cam["cc"], rng.uniform(-.25, .25) * cam["cc"]
        try:
            a, u = optics.trace(cam, mm, x, y)
        except ValueError:
            out.count("total-reflection")
            continue
        w = optics.rot(cam["ang"]) @ np.array([x, y, -cam["cc"]])
        if nrm @ w >= -.55 * np.linalg.norm(w):
            out.count("grazing")
            continue
        pts = [a + u * t for t in (0.0, rng.uniform(.1, 30), rng.uniform(30, 120))]
        mag = [float(np.linalg.norm(p - np.array(cam["pos"]))) / cam["cc"] for p in pts]
        r = {"t": "ray", "err": "", "refstart": fix(a), "refdir": fix(u, D)}
        errs = []
        v, e = out.call(rt.ray_tracing, x, y, cal, mp)
        errs.append(e)
        if not e:
            r["start"], r["dir"] = fix(v[0]), fix(v[1], D)
        got, e = out.call(ic.flat_image_coordinates, np.array(pts), cal, mp)
        errs.append(e)
        if not e:
            r["img"] = [fix(got[i] * mag[i]) for i in range(3)]
            r["ref"] = [fix(np.array([x, y]) * mag[i]) for i in range(3)]
        dx, dy = optics.distort(x + cam["xh"], y + cam["yh"], cam["added"])
        got, e = out.call(ic.image_coordinates, np.array(pts), cal, mp)
        errs.append(e)
        if not e:
            r["dimg"] = [fix(got[i] * mag[i]) for i in range(3)]
            r["dref"] = [fix(np.array([dx, dy]) * mag[i]) for i in range(3)]
        # one by one in another order, and again
        single = []
        for i in (2, 0, 1, 1, 2):
            q, e = out.call(ic.img_coord, np.array(pts[i]), cal, mp)
            errs.append(e)
            single.append([i + 1] + (fix(np.array(q) * mag[i]) if not e else []))
        r["single"] = single
        r["err"] = next((q for q in errs if q), "")[:80]
        out.rec("rays", r)
        out.count("general")
