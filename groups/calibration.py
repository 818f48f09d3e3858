"""C21: calibrations, their files, setters, comparison and rotation matrix."""
import itertools
import math
import os


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCCalib", "MCCalibBig.cfg" if ctx.thorough else None, min_states=40000, workers=3, timeout=3000)
    d = ctx.drive("calibration", "histories")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "cal.ndjson"), "TraceCalib", lambda c: {"C21"}, expect_min=300,
                     label="histories of calibrations", timeout=2500)
    m.result()
    ctx.assumptions += ["numbers in histories have no more digits than the files keep; others are compared to the last "
                        "place of the file"]


# ------------------------------------------------------------------- drivers
DIGITS = {"pos": 8, "ang": 8, "prim": 4, "rad": 8, "dec": 8, "aff": 8, "glass": 15, "added": 8}
SIZE = {"pos": 3, "ang": 3, "prim": 3, "rad": 3, "dec": 2, "aff": 2, "glass": 3, "added": 7}
SETTER = {"pos": "set_pos", "ang": "set_angles", "prim": "set_primary_point", "rad": "set_radial_distortion",
          "dec": "set_decentering", "aff": "set_affine_distortion", "glass": "set_glass_vec", "added": "set_added_par",
          "mat": "set_rotation_matrix"}
GETTER = {"pos": "get_pos", "ang": "get_angles", "prim": "get_primary_point", "rad": "get_radial_distortion",
          "dec": "get_decentering", "aff": "get_affine", "glass": "get_glass_vec"}
LISTS = {"pos", "ang", "glass"}


def s(v):
    v = float(v)
    return repr(v + 0.0) if v == v else "nan"


def strings(v):
    return [s(x) for x in v]


def number(rng, part):
    big = {"pos": 1000, "ang": 3.2, "prim": 100, "rad": .01, "dec": .01, "aff": 1.5, "glass": 90, "added": .1}[part]
    v = rng.choice([0, 0, 1, -1, rng.uniform(-big, big), rng.uniform(-big, big), rng.uniform(-big, big), 10 ** -DIGITS[part],
                    rng.uniform(-1e-5, 1e-5)])
    return float(f"{v:.{DIGITS[part]}f}") + 0.0


def rotation(a):
    """Written out independently of the code under test."""
    from vlib.optics import rot
    return rot(a)


def histories(out):
    import numpy as np
    from pathlib import Path
    from openptv_python import calibration as ca
    rng = out.rng
    n = 1500 if out.thorough else 160
    for it in range(n):
        history(out, rng, it, np, Path, ca)
    rotations(out, rng, np, Path, ca)
    for it in range(400 if out.thorough else 60):
        rounding(out, rng, np, Path, ca, it)


def history(out, rng, it, np, Path, ca):
    d = Path(out.dir) / f"h{it}"
    d.mkdir()
    cals = [ca.Calibration() for _ in range(4)]
    known = {("0.0", "0.0", "0.0"): rotation((0, 0, 0))}
    past = {p: [] for p in SIZE}
    files = [[], []]
    ops = []

    def show():
        res = []
        for c in cals:
            st = {p: strings(np.ravel(getattr(c, g)())) for p, g in GETTER.items()}
            m = np.asarray(c.get_rotation_matrix(), float)
            st["mats"] = [list(k) for k, r in known.items() if m.shape == (3, 3) and np.abs(m - r).max() < 1e-9]
            res.append(st)
        return res

    def values(p):
        """New, earlier or slightly different from an earlier one."""
        if past[p] and rng.random() < .5:
            v = list(rng.choice(past[p]))
            if rng.random() < .6:
                i = rng.randrange(len(v))
                v[i] = float(f"{v[i] + rng.choice([10 ** -DIGITS[p], 1, -v[i] * 2 or 1]):.{DIGITS[p]}f}") + 0.0
        else:
            v = [number(rng, p) for _ in range(SIZE[p])]
        past[p].append(v)
        return v

    for _ in range(rng.randint(8, 30)):
        o = rng.randint(1, 4)
        c = cals[o - 1]
        z = rng.choice(["set"] * 6 + ["write", "write", "read", "read", "cmp", "cmp", "cmp", "refuse", "new", "refresh", "mat", "copyset", "copy", "copy"])
        if z == "new":
            r, err = out.call(ca.Calibration)
            cals[o - 1] = r if not err else c
            op = {"op": "new", "o": o, "err": err}
        elif z == "set":
            p = rng.choice(list(SIZE))
            v = values(p)
            if p == "ang":
                known[tuple(strings(v))] = rotation(v)
            arg = list(v) if p in LISTS and rng.random() < .4 else np.array(v, float)
            _, err = out.call(getattr(c, SETTER[p]), arg)
            op = {"op": "set", "o": o, "part": p, "v": strings(v), "err": err}
        elif z == "copyset":
            # the same parts as another calibration, one by one
            src = rng.randint(1, 4)
            err = ""
            for p in rng.sample(list(GETTER), len(GETTER)):
                v = [float(x) for x in strings(np.ravel(getattr(cals[src - 1], GETTER[p])()))]
                _, err = out.call(getattr(c, SETTER[p]), np.array(v))
                ops.append({"op": "set", "o": o, "part": p, "v": strings(v), "err": err, "all": show()})
            continue
        elif z == "copy":
            b = rng.randint(1, 4)
            if b == o:
                continue
            _, err = out.call(cals[b - 1].copy, c)
            op = {"op": "copy", "o": o, "b": b, "err": err}
        elif z == "mat":
            a = rng.choice(list(known))
            _, err = out.call(c.set_rotation_matrix, np.array(known[a]))
            op = {"op": "set", "o": o, "part": "mat", "v": list(a), "err": err}
            if rng.random() < .6:
                ops.append(dict(op, all=show()))
                _, err = out.call(c.update_rotation_matrix)
                op = {"op": "refresh", "o": o, "err": err}
        elif z == "refresh":
            _, err = out.call(c.update_rotation_matrix)
            op = {"op": "refresh", "o": o, "err": err}
        elif z == "refuse":
            p = rng.choice(["pos", "ang", "prim", "rad", "dec", "aff", "glass", "mat"])
            k = 3 if p == "mat" else SIZE[p]
            bad = rng.choice([(k - 1,), (k + 1,), (k, k) if p != "mat" else (2, 3), (1,), (0,)])
            _, err = out.call(getattr(c, SETTER[p]), np.array(np.full(bad, 7.5)))
            op = {"op": "refuse", "o": o, "part": p, "err": err}
        elif z == "write":
            ori, add = rng.choice(["a.ori", "b.ori"]), rng.choice(["a.addpar", "b.addpar", ""])
            p, q = d / ori, d / add if add else None
            if rng.random() < .5:
                p, q = str(p), str(q) if q else None
            _, err = out.call(c.write, p, q) if rng.random() < .6 else out.call(ca.write_calibration, c, p, q)
            for nm, k in ((ori, 0), (add, 1)):
                if nm and nm not in files[k]:
                    files[k].append(nm)
            op = {"op": "write", "o": o, "ori": ori, "add": add, "err": err}
        elif z == "read":
            if not files[0]:
                continue
            ori, add = rng.choice(files[0]), rng.choice(files[1] + [""])
            fn = rng.choice([ca.Calibration.from_file, ca.read_ori, ca.read_calibration])
            r, err = out.call(fn, d / ori, d / add if add else None)
            if not err:
                cals[o - 1] = r
            op = {"op": "read", "o": o, "ori": ori, "add": add, "err": err}
        else:
            b = rng.randint(1, 4)
            what = rng.choice(["calibration", "calibration", "exterior", "interior", "glass", "addpar"])
            x, y = cals[o - 1], cals[b - 1]
            fn = getattr(ca, "compare_" + what)
            part = {"calibration": lambda k: k, "exterior": lambda k: k.ext_par, "interior": lambda k: k.int_par,
                    "glass": lambda k: k.glass_par, "addpar": lambda k: k.added_par}[what]
            r, err = out.call(fn, part(x), part(y))
            op = {"op": "cmp", "a": o, "b": b, "what": what, "res": "E" if err else "T" if r else "F"}
            out.count("cmp." + op["res"])
        op["all"] = show()
        ops.append(op)
        out.count("op." + op["op"])
    out.rec("cal", {"t": "history", "ops": ops})
    # each part of two equal calibrations is changed once
    if it % 4 == 0:
        singles(out, rng, np, ca)


def singles(out, rng, np, ca):
    cals = [ca.Calibration() for _ in range(2)]
    vals = {p: [number(rng, p) for _ in range(SIZE[p])] for p in GETTER}
    known = {("0.0", "0.0", "0.0"): rotation((0, 0, 0)), tuple(strings(vals["ang"])): rotation(vals["ang"])}
    ops = []

    def show():
        res = []
        for c in cals:
            st = {p: strings(np.ravel(getattr(c, g)())) for p, g in GETTER.items()}
            st["mats"] = [list(k) for k, r in known.items() if np.abs(c.get_rotation_matrix() - r).max() < 1e-9]
            res.append(st)
        return res

    def put(o, p, v):
        if p == "ang":
            known[tuple(strings(v))] = rotation(v)
        _, err = out.call(getattr(cals[o - 1], SETTER[p]), np.array(v))
        ops.append({"op": "set", "o": o, "part": p, "v": strings(v), "err": err, "all": show()})

    def cmp():
        for a, b in ((1, 2), (2, 1)):
            r, err = out.call(ca.compare_calibration, cals[a - 1], cals[b - 1])
            ops.append({"op": "cmp", "a": a, "b": b, "what": "calibration", "res": "E" if err else "T" if r else "F", "all": show()})

    for o in (1, 2):
        for p in GETTER:
            put(o, p, vals[p])
    cmp()
    for p in GETTER:
        for i in range(SIZE[p]):
            v = list(vals[p])
            v[i] = float(f"{v[i] + rng.choice([10 ** -DIGITS[p], -10 ** -DIGITS[p], .5, 10]):.{DIGITS[p]}f}") + 0.0
            put(2, p, v)
            cmp()
            put(2, p, vals[p])
    cmp()
    out.rec("cal", {"t": "history", "ops": ops})


def rotations(out, rng, np, Path, ca):
    base = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)]
    tri = [(sx * a, sy * b, h) for x, y, h in ((3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25))
           for a, b in ((x, y), (y, x)) for sx in (1, -1) for sy in (1, -1)]
    combos = list(itertools.product(base, repeat=3))
    combos += [tuple(rng.choice(tri + base) for _ in range(3)) for _ in range(2000 if out.thorough else 200)]
    po = Path(out.dir) / "r.ori"
    for o, p, k in combos:
        ang = [math.atan2(t[1], t[0]) + rng.choice([0, 0, 0, 2 * math.pi, -2 * math.pi]) for t in (o, p, k)]
        c = ca.Calibration()
        way = rng.choice(["set", "set", "file", "twice", "function"])
        if way == "twice":
            out.call(c.set_angles, [1.0, -.5, .3])
        if way == "function":
            for f, v in zip(("omega", "phi", "kappa"), ang):
                c.ext_par[f] = v
            _, err = out.call(ca.rotation_matrix, c.ext_par)
        else:
            _, err = out.call(c.set_angles, ang)
        if way == "file" and not err:
            _, err = out.call(c.write, str(po), None)
            r, e2 = out.call(ca.read_calibration, po, None)
            c, err = r or c, err or e2
        den = o[2] * p[2] * k[2]
        m = np.asarray(c.get_rotation_matrix(), float) * den * 1000
        m = [[int(round(v)) if abs(v) < 2e9 else 2000000000 for v in row] for row in m]
        out.rec("cal", {"t": "rot", "o": o, "p": p, "k": k, "m": m if not err else [[0] * 3] * 3, "way": way})
        out.count("rot." + way)


def rounding(out, rng, np, Path, ca, it):
    c = ca.Calibration()
    po, pd = Path(out.dir) / "x.ori", Path(out.dir) / "x.addpar"
    vals = {}
    for p in GETTER:
        big = {"pos": 5000, "ang": 7, "prim": 300, "rad": 1, "dec": 1, "aff": 2, "glass": 500}[p]
        vals[p] = [rng.uniform(-big, big) * rng.choice([1, 1e-3, 1e-6]) for _ in range(SIZE[p])]
        getattr(c, SETTER[p])(np.array(vals[p]))
    _, err = out.call(c.write, str(po), str(pd))
    r, e2 = out.call(ca.read_calibration, po, pd)
    if err or e2:
        out.rec("cal", {"t": "round", "dev": [2000000000], "err": err + e2})
        return
    dev = []
    for p in GETTER:
        got = np.ravel(getattr(r, GETTER[p])())
        # for the glass vector the doubles themselves are coarser than the last place
        place = 10.0 ** -DIGITS[p] if p != "glass" else 1e-12
        dev.append(2000000000 if len(got) != SIZE[p] else
                   int(min(2e9, max(abs(a - b) for a, b in zip(got, vals[p])) / place * 100)))
    dev.append(int(min(2e9, np.abs(r.get_rotation_matrix() - rotation(r.get_angles())).max() * 1e12)))
    out.rec("cal", {"t": "round", "dev": dev})
