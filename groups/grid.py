"""C22: sorting detected dots to known points."""
import os


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCSortgrid", "MCSortgridBig.cfg" if ctx.thorough else None, min_states=100000, workers=6, timeout=3000)
    d = ctx.drive("grid", "sorting")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "sort.ndjson"), "TraceSortgrid", lambda c: {"C22"}, expect_min=300,
                     label="sorting of dots", timeout=2500)
    m.result()
    ctx.assumptions += ["projections of the records come from a reference ray tracer; distances closer than 2/64 pixel to "
                        "each other or to the window are left undecided"]


# ------------------------------------------------------------------- drivers
U = 64


def unit(v):
    v = float(v) * U
    return int(round(v)) if abs(v) < 2e9 else 2000000000


def sorting(out):
    import numpy as np
    from openptv_python.parameters import ControlPar
    from openptv_python.sortgrid import sortgrid
    from openptv_python.tracking_frame_buf import Target
    from groups.candidates import scene
    from vlib import optics
    rng = out.rng

    def dots_of(spots):
        res = []
        for i, (x, y) in enumerate(spots):
            res.append([x, y, rng.randint(1, 500), rng.randint(1, 30), rng.randint(1, 30), rng.randint(1, 99999),
                        rng.choice([-1, -1, 0, i, 77]), rng.choice([i, i, -999, rng.randint(0, 50)])])
        return res

    def objects(dots):
        return [Target(pnr=d[7], x=d[0] / U, y=d[1] / U, n=d[2], nx=d[3], ny=d[4], sumg=d[5], tnr=d[6]) for d in dots]

    def rows(ts):
        return [[unit(t.x), unit(t.y), int(t.n), int(t.nx), int(t.ny), int(t.sumg), int(t.tnr), int(t.pnr)] for t in ts]

    def entry(t):
        if t == Target():
            return []
        return [int(t.pnr), unit(t.x), unit(t.y), int(t.n), int(t.nx), int(t.ny), int(t.sumg), int(t.tnr)]

    for it in range(1500 if out.thorough else 220):
        media = rng.choice(["air", "water", "water", "tilted"])
        cams, mm = scene(rng, 1, media)
        cam = cams[0]
        if rng.random() < .5:
            cam["added"] = [rng.uniform(-1e-4, 1e-4), 0, 0, rng.uniform(-1e-5, 1e-5), rng.uniform(-1e-5, 1e-5), 1.0, 0.0]
        w, h = rng.choice([(1024, 1024), (1280, 960), (640, 900)])
        pix = rng.choice([.008, .012, .02])
        n = rng.choice([0, 1, 2, 5, 9, 16])
        spread = rng.choice([10, 30, 60])
        fix = [[rng.uniform(-spread, spread), rng.uniform(-spread, spread), rng.choice([0, rng.uniform(-20, 20)])] for _ in range(n)]
        for _ in range(rng.choice([0, 0, 1, 3])):
            if fix:
                q = rng.choice(fix)
                s = rng.choice([0, .2, 1])
                fix.insert(rng.randrange(len(fix) + 1), [v + rng.uniform(-s, s) for v in q])
        if rng.random() < .2:
            fix += [[rng.choice([-1, 1]) * rng.uniform(150, 250), rng.uniform(-100, 100), 0] for _ in range(2)]
        eps = rng.choice([1, 3, 10, 25, 25, 60, 100])
        # cover the range of the offset of the window with the image border
        proj = [optics.to_pixel(cam, mm, p, w, h, pix) for p in fix]
        spots = []
        for u, v in proj:
            for _ in range(rng.choice([0, 1, 1, 1, 2, 4])):
                z = rng.random()
                if z < .6:
                    s = eps * rng.choice([.05, .3, .6])
                    x, y = u + rng.gauss(0, s), v + rng.gauss(0, s)
                elif z < .9:                         # about the border of the window
                    x = u + rng.choice([-1, 1]) * (eps + rng.choice([-.2, .2, -1, 1]))
                    y = v + rng.uniform(-1, 1) * eps
                    if rng.random() < .5:
                        x, y = u + (y - v), v + (x - u)
                else:
                    x, y = rng.uniform(0, w), rng.uniform(0, h)
                if rng.random() < .9:
                    x, y = min(max(x, 0), w), min(max(y, 0), h)
                spots.append((unit(x), unit(y)))
        rng.shuffle(spots)
        dots = dots_of(spots)
        nfix = len(fix) if rng.random() < .8 else rng.randint(0, len(fix))
        cpar = ControlPar(num_cams=1, imx=w, imy=h, pix_x=pix, pix_y=pix, mm=optics.make_mm(mm))
        cal = optics.make_cal(cam)
        perm = list(range(nfix))
        rng.shuffle(perm)
        pts = np.array(fix, float).reshape(-1, 3)
        obj = objects(dots)
        got, err = out.call(sortgrid, cal, cpar, nfix, pts, eps, obj)
        after = rows(obj)
        second = obj if rng.random() < .5 else objects(dots)
        got2, err2 = out.call(sortgrid, cal, cpar, nfix, pts[perm] if nfix else pts, eps, second)
        rec = {"t": "sort", "w": w * U, "h": h * U, "eps": eps * U, "tol": 2, "nfix": nfix, "dots": dots, "after": after,
               "proj": [[unit(min(max(u, -5000), 9000)), unit(min(max(v, -5000), 9000))] for u, v in proj],
               "perm": [p + 1 for p in perm], "err": err or err2,
               "got": [entry(t) for t in got or []], "gotperm": [entry(t) for t in got2 or []]}
        out.rec("sort", rec)
        out.count("points", nfix)
        out.count("assigned", sum(1 for g in rec["got"] if g))
    nearest(out, rng, dots_of, objects)
    blocks(out, rng)


def nearest(out, rng, dots_of, objects):
    from openptv_python.sortgrid import nearest_neighbour_pix
    for it in range(2000 if out.thorough else 300):
        m = rng.choice([0, 1, 2, 5, 12, 40])
        R = rng.choice([2, 5, 12])
        step = rng.choice([U, U // 2, U // 4, 7])
        dots = dots_of([(rng.randint(-R, R) * step, rng.randint(-R, R) * step) for _ in range(m)])
        aim = [rng.randint(-R, R) * step, rng.randint(-R, R) * step]
        eps = rng.choice([0, 1, 2, 3, R, R, 2 * R]) * step
        r, err = out.call(nearest_neighbour_pix, objects(dots), aim[0] / U, aim[1] / U, eps / U)
        got = -1 if err else 0 if r == -999 else int(r) + 1
        out.rec("sort", {"t": "near", "aim": aim, "eps": eps, "dots": dots, "got": got, "err": err})
        out.count("near." + ("none" if got == 0 else "some"))


def blocks(out, rng):
    import numpy as np
    from openptv_python import sortgrid
    p = os.path.join(out.dir, "block.txt")
    num = lambda v: "%.15g" % float(v)  # noqa: E731
    for it in range(300 if out.thorough else 60):
        n = rng.choice([1, 2, 5, 12])
        lines = [[str(rng.choice([i + 1, i + 1, rng.randint(0, 999)]))]
                 + [num(rng.choice([rng.randint(-90, 90), rng.uniform(-200, 200), 0])) for _ in range(3)] for i in range(n)]
        if rng.random() < .3:
            k = rng.randrange(n)
            lines[k] = lines[k][:rng.randint(1, 3)]
        with open(p, "w") as o:
            o.write("\n".join(rng.choice(["", " "]) + rng.choice([" ", "\t", "   "]).join(q) for q in lines) + rng.choice(["", "\n"]))
        r, err = out.call(sortgrid.read_calblock, p)
        rows = []
        if not err:
            a = np.ravel(r)
            rows = [[num(q["pnr"]), num(q["x"]), num(q["y"]), num(q["z"])] for q in a]
        out.rec("sort", {"t": "block", "lines": lines, "got": {"err": bool(err), "rows": rows}})
