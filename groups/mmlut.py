"""C27: lookups in the table of radial shifts, and building it."""
import os

from groups.refraction import fix

U = 1000000


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCMmlut", "MCMmlutBig.cfg" if ctx.thorough else None, min_states=130000, workers=4, timeout=3000)
    d = ctx.drive("mmlut", "lookups")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "lut.ndjson"), "TraceMmlut", lambda c: {"C27"}, expect_min=300,
                     label="lookups", timeout=2500)
    m.result()
    ctx.assumptions += ["exactly on the last row or column of the table either answer is accepted"]


def lookups(out):
    import math
    import numpy as np
    from groups.refraction import general_scene
    from vlib import optics
    from openptv_python import multimed as mu
    from openptv_python.calibration import Calibration
    from openptv_python.parameters import ControlPar, VolumePar
    rng = out.rng
    big = out.thorough
    pyth = [(1, 0), (0, 1), (-1, 0), (0, -1), (.6, .8), (-.8, .6), (.6, -.8), (-.28, -.96)]

    for it in range(3000 if big else 300):               # small tables of whole numbers
        nr, nz, rw = rng.randint(1, 6), rng.randint(1, 6), rng.choice([1, 2, 2, 3, 4])
        data = [[rng.randint(1, 64) for _ in range(nz)] for _ in range(nr)]
        org = [float(rng.randint(-9, 9)), float(rng.randint(-9, 9)), rng.randint(-40, 40) / 4]
        cal = Calibration()
        cal.mmlut.origin = np.array(org)
        cal.mmlut.nr, cal.mmlut.nz, cal.mmlut.rw = nr, nz, rw
        cal.mmlut_data = np.array(data, float) / 64
        ask, err = [], ""
        for _ in range(14):
            q = [rng.randint(0, 4 * nr + 2), rng.randint(-6, 4 * nz + 4)]
            if rng.random() < .25:
                q = [4 * rng.randrange(nr), 4 * rng.randrange(nz)]
            edge = q[0] % 4 == 0                            # the cell would depend on rounding
            c, s = rng.choice(pyth[:4] if edge else pyth)
            R = q[0] * rw / 4
            p = np.array([org[0] + c * R, org[1] + s * R, org[2] + q[1] * rw / 4])
            v, e = out.call(mu.get_mmf_from_mmlut, cal, p)
            err = err or e
            ask.append({"q": q, "v": fix(v, U) if not e else 0, "none": int(not e and v == 0)})
            out.count("lookup")
        out.rec("lut", {"t": "small", "table": {"nr": nr, "nz": nz, "data": data}, "ask": ask, "err": err[:80]})

    for it in range(60 if big else 10):                  # tables made for a camera
        made = None
        for _ in range(1 if it % 2 else 3):          # the same calibration with other cameras and volumes
            made = made_table(out, made)


def made_table(out, old):
    import copy
    import math
    import numpy as np
    from groups.refraction import general_scene
    from vlib import optics
    from openptv_python import multimed as mu
    from openptv_python.parameters import ControlPar, VolumePar
    rng = out.rng
    while True:
        if old and rng.random() < .5:                    # only the volume changes
            cam, mm, nrm, gap = copy.deepcopy(old[1])
            break
        cam, mm, nrm, gap = general_scene(rng)
        if abs(nrm[2]) > .8 and not mm["n1"] == mm["n2"] == mm["n3"] and cam["pos"][2] * nrm[2] > 0:
            cam["added"] = optics.NODIST if rng.random() < .5 else cam["added"][:5] + [1.0, 0.0]
            cam["added"] = [v * .05 for v in cam["added"][:5]] + [1.0, 0.0]
            break
    scene = cam, mm, nrm, gap
    cal, mp = optics.make_cal(cam), optics.make_mm(mm)
    if old:                                          # the same object, or a copy of it, with its table
        c = old[0] if rng.random() < .6 else copy.deepcopy(old[0])
        c.ext_par, c.int_par, c.glass_par, c.added_par = cal.ext_par, cal.int_par, cal.glass_par, cal.added_par
        cal = c
    top = nrm[2] * gap - 25 if nrm[2] > 0 else nrm[2] * gap + 45
    lift = 0 if nrm[2] > 0 else 30
    lays = sorted([float(rng.randint(int(top) - 40, int(top)) + lift) for _ in range(2)])
    other = [lays[0] + rng.choice([0, 5]), lays[1] - rng.choice([0, 5])]     # the narrower side of the volume
    mins, maxs = [lays[0], other[0]], [lays[1], other[1]]
    if rng.random() < .5:
        mins.reverse()
    if rng.random() < .5:
        maxs.reverse()
    vpar = VolumePar(x_lay=[-40., 40.], z_min_lay=mins, z_max_lay=maxs)
    cpar = ControlPar(num_cams=1, imx=640, imy=480, pix_x=.012, pix_y=.012, mm=mp)
    r, e = out.call(mu.init_mmlut, vpar, cpar, cal)
    rec = {"t": "made", "err": e[:80], "nodes": [], "mix": [], "cover": [], "shape": 0}
    if not e:
        lut, data = r.mmlut, r.mmlut_data
        nr, nz, rw = int(lut.nr), int(lut.nz), int(lut.rw)
        rec["shape"] = int(data.shape == (nr, nz))
        # the camera straight above the origin of a level glass
        z0 = float(np.dot(nrm, cam["pos"]) - gap)
        flat = {"pos": [0, 0, z0 + gap], "ang": [0, 0, 0], "cc": 1.0, "glass": [0, 0, gap]}
        for _ in range(25):
            i, j = rng.randrange(nr), rng.randrange(nz)
            R, Z = i * rw, float(lut.origin[2]) + j * rw
            if Z > -1e-9 or R > 1.2 * (z0 - Z):
                continue
            ref = 1.0 if i == 0 else optics.project(flat, mm, [R, 0, Z + gap])[0] * (z0 - Z) / R
            rec["nodes"].append([fix(data[i, j], U), fix(ref, U)] if rec["shape"] else [0, 1])
            out.count("node")
        if rec["shape"] and nr > 1 and nz > 1:
            for _ in range(25):
                i, j, f = rng.randrange(nr - 1), rng.randrange(nz - 1), [rng.randrange(4), rng.randrange(4)]
                q = [i * rw + f[0] * rw / 4, float(lut.origin[2]) + j * rw + f[1] * rw / 4]
                # numbers that are not exact: stay away from the borders of a cell
                if f[0] == 0:
                    q[0] += 1e-9
                if f[1] == 0:
                    q[1] += 1e-9
                a = rng.uniform(0, 6.28) if f[0] else 0.0
                if not np.all(np.abs(data[i:i + 2, j:j + 2]) < 20):      # depths in front of the glass
                    continue
                v, e = out.call(mu.get_mmf_from_mmlut, r, np.array([lut.origin[0] + q[0] * math.cos(a), lut.origin[1] + q[0] * math.sin(a), q[1]]))
                rec["err"] = rec["err"] or e[:80]
                rec["mix"].append({"f": f, "v": fix(v, U) if not e else 0, "c": [fix(data[i, j], U), fix(data[i, j + 1], U), fix(data[i + 1, j], U), fix(data[i + 1, j + 1], U)]})
                out.count("lookup-in-made-table")
        # what the camera sees of the volume, away from its borders
        low, high = lays[0] + 2.5 * rw, lays[1] - 2.5 * rw
        for k in range(24 if high > low else 0):
            f = [rng.choice([-.85, .85]), rng.choice([-.85, .85])] if k < 12 else [rng.uniform(-.85, .85), rng.uniform(-.85, .85)]
            x, y = f[0] * 320 * .012, f[1] * 240 * .012
            x, y = optics.undistort(x - cam["xh"], y - cam["yh"], cam["added"])
            P = optics.at_z(*optics.trace(cam, mm, x, y), rng.choice([low, high, rng.uniform(low, high)]))
            if not np.all(np.isfinite(P)) or nrm @ P > gap - 3 * rw:
                continue
            W = P - np.array(cam["pos"])
            q = [float(np.linalg.norm(W - nrm * (nrm @ W))), 0.0, float(nrm @ P - gap)]
            v, e = out.call(mu.get_mmf_from_mmlut, r, np.array([lut.origin[0] + q[0], lut.origin[1], q[2]]))
            rec["err"] = rec["err"] or e[:80]
            rec["cover"].append(int(not e and v != 0))
            out.count("seen-point")
    out.rec("lut", rec)
    out.count("made")
    return (cal if e or not rec["shape"] else r), scene
