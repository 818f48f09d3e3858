"""C24: positions from the rays of the cameras that see a point."""
import itertools
import os

from groups.refraction import S, exact_scene, fix


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCTriangulation", "MCTriangulation4.cfg" if ctx.thorough else "MCTriangulationBig.cfg", min_states=20000, workers=3, timeout=3000)
    d = ctx.drive("triangulation", "positions")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "tri.ndjson"), "TraceTriangulation", lambda c: {"C24"}, expect_min=500,
                     label="positions from rays", timeout=2500)
    m.result()
    ctx.assumptions += ["no two rays of one point are parallel", "a camera that does not see a point is marked by COORD_UNUSED in x"]


# ------------------------------------------------------------------- drivers
def rotations():
    """The 24 integer rotations."""
    import numpy as np
    res = []
    for p in itertools.permutations(range(3)):
        for sg in itertools.product([1, -1], repeat=3):
            m = np.zeros((3, 3), int)
            for i in range(3):
                m[i, p[i]] = sg[i]
            if round(np.linalg.det(m)) == 1:
                res.append(m)
    return res


def camera_for(rng, pos, ray, glass):
    from vlib import optics
    aim = pos + 30 * ray + [rng.uniform(-5, 5) for _ in range(3)]
    return {"pos": [float(q) for q in pos], "ang": [float(q) for q in optics.look_at(pos, aim, rng.uniform(-3.1, 3.1))],
            "cc": rng.uniform(20, 90), "glass": [float(q) for q in glass]}


def positions(out):
    import numpy as np
    from groups.refraction import general_scene, image_of
    from vlib import optics
    from openptv_python import orientation as ori
    from openptv_python.constants import COORD_UNUSED
    from openptv_python.parameters import ControlPar, VolumePar
    rng = out.rng
    rots = rotations()
    vpar = VolumePar(x_lay=[-50., 50.], z_min_lay=[-20., -20.], z_max_lay=[20., 20.])
    air = {"n1": 1.0, "n2": 1.0, "n3": 1.0, "d": 1.0}

    def ints(n, a):
        return [rng.randint(-a, a) for _ in range(n)]

    def den(d, e):
        return int(np.sum(np.cross(d, e) ** 2))

    for it in range(3000 if out.thorough else 250):      # two lines
        while True:
            v1, v2, d1, d2 = ints(3, 9), ints(3, 9), ints(3, 4), ints(3, 4)
            if den(d1, d2):
                break
        f = rng.choice([1.0, 1.0, .25, 3.0])           # the length of a direction does not matter
        (r, e) = out.call(ori.skew_midpoint, np.array(v1, float), f * np.array(d1, float), np.array(v2, float), np.array(d2, float))
        out.rec("tri", {"t": "skew", "a": [v1, d1], "b": [v2, d2], "err": e[:80], "dist": fix(r[0], 1000) if not e else 0, "mid": fix(r[1]) if not e else []})
        out.count("two-lines")

    def run_targets(targets, cals, mm):
        """Positions of several points by every way of asking for them."""
        n = len(cals)
        res, errs = {}, []
        r, e = out.call(ori.multi_cam_point_positions, targets, mm, cals)
        errs.append(e)
        if not e:
            res["multi"] = r
        if n > 1:
            r, e = out.call(ori.point_positions, targets, mm, cals, vpar)
            errs.append(e)
            if not e:
                res["any"] = r
        one = []
        for t in targets:
            r, e = out.call(ori.point_position, t, n, mm, cals)
            errs.append(e)
            if not e:
                one.append(r)
        if len(one) == len(targets):
            res["one"] = (np.array([o[1] for o in one]), np.array([o[0] for o in one]))
        # other order of cameras, other order of points
        o = list(range(n))
        rng.shuffle(o)
        r, e = out.call(ori.multi_cam_point_positions, np.ascontiguousarray(targets[:, o]), mm, [cals[i] for i in o])
        errs.append(e)
        if not e:
            res["turned"] = r
        q = list(range(len(targets)))
        rng.shuffle(q)
        r, e = out.call(ori.multi_cam_point_positions, np.ascontiguousarray(targets[q]), mm, cals)
        errs.append(e)
        if not e:
            back = np.argsort(q)
            res["shuffled"] = (r[0][back], r[1][back])
        # a camera that does not see a point may have any y, and may be left out
        ways = [{"way": k, "pos": fix(v[0]), "rcm": fix(v[1], 1000)} for k, v in res.items()]
        return ways, next((x for x in errs if x), "")[:80]

    for it in range(1500 if out.thorough else 160):      # cameras on the lattice, one medium
        n = rng.choice([1, 2, 2, 3, 3, 4, 4])
        npts = rng.choice([1, 2, 4])
        rot = rng.choice(rots)
        ahead = rng.random() < .3                       # cameras that look straight ahead: exact middles of images
        if ahead:
            rot = np.eye(3, dtype=int)
        pos = []
        while len(pos) < n:
            p = [rng.randint(-9, 9), rng.randint(-9, 9), rng.randint(7, 12)]
            if p not in pos:
                pos.append(p)
        gap = rng.choice([1, 2, 4])
        rays, seen = [], []
        targets = np.zeros((npts, n, 2))
        for k in range(npts):
            while True:
                ds = [[rng.randint(-2, 2), rng.randint(-2, 2), -rng.randint(1, 4)] for _ in range(n)]
                if ahead and rng.random() < .7:
                    ds[rng.randrange(n)] = [0, 0, -1]
                if all(den(ds[i], ds[j]) for i in range(n) for j in range(i)):
                    break
            rays.append(ds)
            seen.append([int(rng.random() < .75) for _ in range(n)])
        cams = []
        for c in range(n):
            P = rot @ np.array(pos[c])
            cam = camera_for(rng, P.astype(float), (rot @ np.array([0, 0, -1.0])), (rot @ np.array([0, 0, gap])).astype(float))
            if ahead:
                cam["ang"] = [0.0, 0.0, 0.0]
            cams.append(cam)
            for k in range(npts):
                targets[k, c] = image_of(cam, (rot @ np.array(rays[k][c])).astype(float)) if seen[k][c] else (COORD_UNUSED, rng.choice([COORD_UNUSED, 0.0, 3.5]))
        cals = [optics.make_cal(c) for c in cams]
        ways, err = run_targets(targets, cals, optics.make_mm(air))
        out.rec("tri", {"t": "lattice", "err": err, "ways": ways,
                        "rays": [[[(rot @ np.array(pos[c])).tolist(), (rot @ np.array(rays[k][c])).tolist()] for c in range(n)] for k in range(npts)], "seen": seen})
        for s in seen:
            out.count(f"lattice.seen-by-{sum(s)}-of-{n}")

    for it in range(1500 if out.thorough else 160):      # refracted rays that meet in one point
        s, cam, mm, ray = exact_scene(rng, None)
        if s["a1"][0] == 0:
            continue
        nrm, lat = np.array(s["nrm"]), np.array(s["lat"])
        m = np.cross(nrm, lat) // 3
        P = np.array(cam["pos"]) + s["k1"] * (s["a1"][0] * lat - s["a1"][1] * nrm) + s["k2"] * (s["a2"][0] * lat - s["a2"][1] * nrm) + s["k3"] * (s["a3"][0] * lat - s["a3"][1] * nrm)
        n = rng.choice([2, 3, 4])
        cams, targets = [], np.zeros((1, n, 2))
        seen = [int(rng.random() < .85) for _ in range(n)]
        for c, side in enumerate(rng.sample([lat, -lat, m, -m], n)):
            k1 = max(1, s["k1"] + rng.randint(-3, 3))
            back = k1 * (s["a1"][0] * side - s["a1"][1] * nrm) + s["k2"] * (s["a2"][0] * side - s["a2"][1] * nrm) + s["k3"] * (s["a3"][0] * side - s["a3"][1] * nrm)
            u = (s["a1"][0] * side - s["a1"][1] * nrm) / (3.0 * s["a1"][2])
            q = camera_for(rng, (P - back).astype(float), u, s["gap"] * nrm)
            cams.append(q)
            targets[0, c] = image_of(q, u) if seen[c] else (COORD_UNUSED, COORD_UNUSED)
        ways, err = run_targets(targets, [optics.make_cal(c) for c in cams], optics.make_mm(mm))
        out.rec("tri", {"t": "meeting", "err": err, "ways": ways, "point": [int(v) for v in P], "seen": seen})
        out.count(f"meeting.seen-by-{sum(seen)}-of-{n}")

    for it in range(1200 if out.thorough else 120):      # general scenes, rays that miss one another
        cam0, mm, nrm, gap = general_scene(rng)
        n = rng.choice([2, 3, 4])
        cams = []
        for c in range(n):
            side = np.cross(nrm, [.2, -.4, .7])
            side /= np.linalg.norm(side)
            up = np.cross(nrm, side)
            h = rng.uniform(100, 300)
            p = nrm * (gap + mm["d"] + h) + side * rng.uniform(-.5, .5) * h + up * rng.uniform(-.5, .5) * h
            aim = nrm * (gap - 30)
            cams.append({"pos": [float(q) for q in p], "ang": [float(q) for q in optics.look_at(p, aim, rng.uniform(-3, 3))], "cc": rng.uniform(30, 90), "glass": cam0["glass"]})
        npts = rng.choice([2, 4])
        targets, seen, refs = np.zeros((npts, n, 2)), [], []
        even = []
        for k in range(npts):
            P = nrm * (gap - rng.uniform(5, 60)) + np.array([rng.uniform(-20, 20) for _ in range(3)])
            if nrm @ P > gap - 1:
                P = P - nrm * (nrm @ P - gap + 1)
            sn = [int(rng.random() < .8) for _ in range(n)]
            rays = []
            for c in range(n):
                x, y = optics.project(cams[c], mm, P)
                x, y = x + rng.gauss(0, .02), y + rng.gauss(0, .02)
                targets[k, c] = (x, y) if sn[c] else (COORD_UNUSED, COORD_UNUSED)
                if sn[c]:
                    rays.append(optics.trace(cams[c], mm, x, y))
            seen.append(sn)
            refs.append(optics.closest(rays) if len(rays) > 1 else (np.zeros(3), 0.0))
        cals, mp = [optics.make_cal(c) for c in cams], optics.make_mm(mm)
        ways, err = run_targets(targets, cals, mp)
        r = {"t": "general", "err": err, "ways": ways, "seen": seen, "refpos": [fix(q[0]) for q in refs], "refrcm": [fix(q[1], 1000) for q in refs], "dumb": []}
        if all(sum(q) > 1 for q in seen):
            length, weight = rng.choice([5, 20, 40]), rng.choice([0, 1, 2, 5])
            ds = [float(np.linalg.norm(refs[i][0] - refs[i + 1][0])) for i in range(0, npts, 2)]
            for f in ("weighted_dumbbell_precision", "dumbbell_target_func"):
                a = mp if f[0] == "w" else ControlPar(num_cams=n, imx=1000, imy=1000, pix_x=.01, pix_y=.01, mm=mp)
                v, e = out.call(getattr(ori, f), targets, a, cals, float(length), weight / 4)
                r["err"] = r["err"] or e[:80]
                r["dumb"].append({"length": length, "weight": weight, "apart": fix(ds, 1000), "value": fix(v, 10000) if not e else 0})
            out.count("dumbbells")
        out.rec("tri", r)
        for q in seen:
            out.count(f"general.seen-by-{sum(q)}-of-{n}")
