"""C03, C04: candidates along epipolar lines."""
import math
import os

C34 = {"C03", "C04"}


def run(ctx):
    ms = []
    if ctx.prop == "C03":
        ms.append(ctx.pool.submit(ctx.model, "MCStart", "MCStartBig.cfg" if ctx.thorough else None, min_states=50000,
                                  workers=4, timeout=2500))
        d = ctx.drive("candidates", "search")
        stream, mn = "search", 200
    else:
        d = ctx.drive("candidates", "pairs")
        stream, mn = "pairs", 200
    ms.append(ctx.pool.submit(ctx.model, "MCCandidates", min_states=100000, workers=4, timeout=1500))
    p = os.path.join(d, stream + ".ndjson")
    if os.path.exists(p) and not ctx.fails:
        ctx.validate(p, "TraceCandidates", lambda c: {ctx.prop}, expect_min=mn, timeout=1500)
    ctx.clauses = ctx.stats(d)
    for f in ms:
        f.result()
    if ctx.prop == "C04":
        ctx.assumptions += ["ends of the epipolar lines come from a reference ray tracer; targets within 4 micrometres "
                            "of the tolerance are left undecided"]


def crd_of(xs, ys, pn):
    import numpy as np
    from openptv_python.epi import Coord2d_dtype
    a = np.zeros(len(xs), dtype=Coord2d_dtype).view(np.recarray)
    for i in range(len(xs)):
        a[i] = (pn[i], xs[i], ys[i])
    return a


# ------------------------------------------------------------------- drivers
def search(out):
    import numpy as np
    from openptv_python.calibration import Calibration
    from openptv_python.find_candidate import find_candidate
    from openptv_python.parameters import ControlPar, VolumePar
    from openptv_python.tracking_frame_buf import Target
    rng = out.rng

    # ---- small scenes on an exact lattice (unit 1/16 mm)
    U = 16.0
    n = 8000 if out.thorough else 1500
    for it in range(n):
        flavour = rng.choice(["plain", "plain", "plain", "dense", "big", "crowd"])
        half = [rng.randint(8, 30), rng.randint(8, 30)]
        xh, yh = rng.choice([(0, 0), (0, 0), (3, -2), (-4, 5)])
        den = 8
        lim = [rng.randint(0, 8) if rng.random() < .6 else 0 for _ in range(4)]
        if flavour in ("dense", "crowd"):
            lim = [rng.randint(0, 4) for _ in range(4)] if flavour == "dense" else [0, 0, 0, 0]
        eps = rng.randint(1, 6 if flavour == "plain" else 12)
        m = {"plain": rng.randint(0, 25), "dense": rng.randint(20, 90), "big": rng.randint(0, 20),
             "crowd": rng.randint(45, 140)}[flavour]
        R = 32
        ends = [rng.randint(-R, R) for _ in range(4)]
        sh = rng.random()
        if sh < .12:
            ends[2] = ends[0]                       # upright
        elif sh < .24:
            ends[3] = ends[1]                       # level
        elif sh < .28:
            ends[2:] = ends[:2]                     # a point
        elif sh < .4:
            ends = [rng.choice([-half[0] - xh, half[0] - xh, -half[0] - xh - 1, half[0] - xh + 1]), ends[1],
                    rng.choice([ends[2], half[0] - xh, -half[0] - xh]), ends[3]]
        xa, ya, xb, yb = ends
        pts = []
        for _ in range(m):
            r = rng.random()
            if flavour == "crowd" or r < .6:        # near the line
                t = rng.uniform(-.15, 1.15)
                x = round(xa + t * (xb - xa)) + rng.randint(-eps - 1, eps + 1)
                y = round(ya + t * (yb - ya)) + rng.randint(-eps - 1, eps + 1)
            elif r < .8:                            # about the corners of the window
                x = rng.choice([xa, xb]) + rng.choice([-eps, eps, 0, eps - 1, 1 - eps])
                y = rng.choice([ya, yb]) + rng.choice([-eps, eps, 0, eps - 1, 1 - eps])
            else:
                x, y = rng.randint(-R, R), rng.randint(-R, R)
            g = rng.choice([0, 1, 10, 60, 120]) if flavour != "big" else rng.randint(100, 12000)
            pts.append([x, y, rng.randint(0, 8), rng.randint(0, 6), rng.randint(1, 6), g])
            if flavour == "crowd":
                pts[-1][2:] = [rng.randint(1, 8), rng.randint(1, 6), rng.randint(1, 6), rng.choice([10, 60, 120])]
        pts.sort(key=lambda p: p[0])
        own = [rng.randint(0, 8), rng.randint(1, 6), rng.randint(1, 6),
               rng.choice([0, 10, 60, 120]) if flavour != "big" else rng.randint(100, 12000)]
        perm = list(range(m))
        rng.shuffle(perm)
        pix = [None] * m
        for i, p in enumerate(pts):
            pix[perm[i]] = Target(pnr=perm[i], x=1.0, y=2.0, n=p[2], nx=p[3], ny=p[4], sumg=p[5], tnr=-1)
        crd = crd_of([p[0] / U for p in pts], [p[1] / U for p in pts], perm)
        vpar = VolumePar(x_lay=[-1., 1.], z_min_lay=[0., 0.], z_max_lay=[1., 1.], cn=lim[0] / den, cnx=lim[1] / den,
                         cny=lim[2] / den, csumg=lim[3] / den, eps0=eps / U, corrmin=1.0)
        cpar = ControlPar(num_cams=2)
        cpar.set_image_size((2 * half[0], 2 * half[1]))
        cpar.set_pixel_size((1 / U, 1 / U))
        cal = Calibration()
        cal.set_primary_point(np.array([xh / U, yh / U, 50.]))
        wide = half[0]
        if (xh, yh) == (0, 0) and rng.random() < .3:    # a lens that scales the sensor's width
            k = rng.choice([1, -1])
            wide = 2 * half[0] if k > 0 else half[0] // 2
            if k < 0 and half[0] % 2:
                cpar.set_image_size((4 * wide, 2 * half[1]))
            cal.set_affine_distortion(np.array([2. ** -k, 0.]))
        before = (crd.copy(), [(t.n, t.tnr, t.x) for t in pix])
        r, err = out.call(find_candidate, crd, pix, m, xa / U, ya / U, xb / U, yb / U, *own, vpar, cpar, cal,
                          _desc={"scene": ends})
        c = {"pts": pts, "xa": xa, "ya": ya, "xb": xb, "yb": yb, "eps": eps, "own": own, "lim": lim, "den": den,
             "sx0": -wide - xh, "sx1": wide - xh, "sy0": -half[1] - yh, "sy1": half[1] - yh, "slack": 0}
        got = [] if err else [[int(k.pnr), int(round(float(k.tol) * U * 1000)), int(round(float(k.corr) * 1000))]
                              for k in r]
        ok = bool((crd == before[0]).all()) and [(t.n, t.tnr, t.x) for t in pix] == before[1]
        out.rec("search", {"kind": "scene", "c": c, "got": got, "err": err, "unchanged": ok})
        out.count("flavour." + flavour)
        out.count("candidates", len(got))
        out.count("nonempty", 1 if got else 0)
        out.count("full", 1 if len(got) >= 40 else 0)

    # ---- long lists: each single target must be found wherever it lies
    sizes = list(range(0, 34)) + [63, 64, 65, 127, 255, 257, 511, 767, 1023, 1024, 1535, 2047, 2048, 3071, 4095, 4097,
                                  6143, 8191, 8192, 12287, 16383, 20480]
    sizes += [rng.randint(35, 20480) for _ in range(3)]
    if out.thorough:
        sizes += list(range(34, 300)) + [rng.randint(300, 20480) for _ in range(40)]
    budget = 1000 if not out.thorough else 10**9
    vpar = VolumePar(x_lay=[-1., 1.], z_min_lay=[0., 0.], z_max_lay=[1., 1.], cn=0.1, cnx=0.1, cny=0.1, csumg=0.01,
                     eps0=0.25, corrmin=1.0)
    cpar = ControlPar(num_cams=2)
    cpar.set_image_size((100000, 100000))
    cpar.set_pixel_size((1.0, 1.0))
    cal = Calibration()
    for num in sizes:
        off = num // 2
        crd = crd_of([float(i - off) for i in range(num)], [0.0] * num, list(range(num)))
        pix = [Target(pnr=i, n=4, nx=2, ny=2, sumg=100) for i in range(num)]
        if num > budget:
            # the first and last ones, all neighbourhoods of dyadic positions, and random ones
            pos = set(range(60)) | set(range(num - 60, num)) | {rng.randrange(num) for _ in range(400)}
            k = num
            while k > 16:
                k //= 2
                for q in range(k, num, k):
                    if len(pos) < budget + 400:
                        pos |= {q - 2, q - 1, q, q + 1}
            pos = sorted(p for p in pos if 0 <= p < num)
        else:
            pos = list(range(num))
        found, other, err = [], 0, ""
        for p in pos:
            r, e = out.call(find_candidate, crd, pix, num, p - off - .1, 0.0, p - off + .1, 0.0, 4, 2, 2, 100, vpar,
                            cpar, cal, _desc={"num": num, "position": p})
            if e:
                err = e
                break
            ids = [int(k.pnr) for k in r]
            if p in ids:
                found.append(p)
            other += sum(1 for i in ids if i != p)
        if num == 0:
            r, err = out.call(find_candidate, crd, pix, 0, -.1, 0., .1, 0., 4, 2, 2, 100, vpar, cpar, cal)
            found = [0] if not err and len(r) else []
        # positions not asked for count as found when their neighbours asked for were
        runs, asked = [], pos
        fs = set(found)
        for k, p in enumerate(asked):
            lo = 0 if k == 0 else asked[k - 1] + 1
            hi = num - 1 if k == len(asked) - 1 else p
            if p in fs:
                if runs and runs[-1][1] == lo - 1:
                    runs[-1][1] = hi
                else:
                    runs.append([lo, hi])
        out.rec("search", {"kind": "long", "num": num, "asked": len(asked), "found": runs, "other": other, "err": err})
        out.count("long.searches", len(asked))


def scene(rng, ncam, media):
    """Cameras around a volume and points in it."""
    from vlib import optics
    mm = {"n1": 1.0, "n2": 1.0, "n3": 1.0, "d": 0.0} if media == "air" else \
        {"n1": 1.0, "n2": rng.choice([1.46, 1.52]), "n3": rng.choice([1.33, 1.4]), "d": rng.choice([2.0, 5.0, 8.0])}
    cams = []
    ang0 = rng.uniform(0, 2 * math.pi)
    for c in range(ncam):
        a = ang0 + 2 * math.pi * c / ncam + rng.uniform(-.2, .2)
        pos = [rng.uniform(70, 110) * math.cos(a), rng.uniform(70, 110) * math.sin(a), rng.uniform(330, 420)]
        cams.append({"pos": pos, "ang": optics.look_at(pos, [0, 0, 0], rng.uniform(-.15, .15)),
                     "cc": rng.uniform(55, 75), "xh": rng.uniform(-.3, .3), "yh": rng.uniform(-.3, .3),
                     "glass": [rng.uniform(-.5, .5), rng.uniform(-.5, .5), rng.uniform(50, 70)]})
    if media == "tilted":
        for c in cams:
            c["glass"] = [rng.uniform(-6, 6), rng.uniform(-6, 6), rng.uniform(55, 65)]
    return cams, mm


def pairs(out):
    import numpy as np
    from openptv_python.correspondences import match_pairs, safely_allocate_adjacency_lists
    from openptv_python.parameters import ControlPar, VolumePar
    from openptv_python.tracking_frame_buf import Frame, Target
    from vlib import optics
    rng = out.rng
    n = 300 if out.thorough else 45
    K = 1000                                        # micrometres per mm
    rows = 0
    for it in range(n):
        ncam = rng.randint(2, 4)
        media = rng.choice(["air", "water", "water", "tilted"])
        cams, mm = scene(rng, ncam, media)
        zl = [[-30., -30.], [30., 30.]] if rng.random() < .4 else \
            [[rng.uniform(-40, -20), rng.uniform(-40, -20)], [rng.uniform(20, 40), rng.uniform(20, 40)]]
        xl = [rng.uniform(-60, -40), rng.uniform(40, 60)]
        eps = rng.choice([30, 60, 120, 200])
        den = 8
        lim = [rng.randint(0, 5) for _ in range(4)]
        npts = rng.choice([0, 1, 3, 6, 10, 10])
        P = [[rng.uniform(-25, 25), rng.uniform(-25, 25), rng.uniform(-22, 22)] for _ in range(npts)]
        half = (rng.choice([4.0, 6.0, 7.0]), rng.choice([4.0, 6.0]))
        crowd = rng.random() < .12
        lists = []
        for c in cams:
            t = []
            for X in P:
                if rng.random() < .85:
                    x, y = optics.project(c, mm, X)
                    t.append([x + rng.gauss(0, .01), y + rng.gauss(0, .01)])
            for _ in range(rng.choice([0, 0, 2, 8])):
                t.append([rng.uniform(-half[0], half[0]), rng.uniform(-half[1], half[1])])
            if crowd and t:
                b = t[0]
                t += [[b[0] + rng.uniform(-.15, .15), b[1] + rng.uniform(-.15, .15)] for _ in range(50)]
            if rng.random() < .08:
                t = []
            t = [[round(x * K), round(y * K), rng.randint(1, 30), rng.randint(1, 6), rng.randint(1, 6),
                  rng.randint(100, 9000)] for x, y in t]
            t.sort(key=lambda q: (q[0], q[1]))
            lists.append(t)
        frm = Frame(ncam, 4)
        corrected = []
        for ci, t in enumerate(lists):
            m = len(t)
            perm = list(range(m))
            rng.shuffle(perm)
            tg = [None] * m
            for i, q in enumerate(t):
                tg[perm[i]] = Target(pnr=perm[i], x=rng.uniform(0, 1000), y=rng.uniform(0, 1000), n=q[2], nx=q[3],
                                     ny=q[4], sumg=q[5], tnr=-1)
            frm.targets[ci] = tg
            frm.num_targets[ci] = m
            corrected.append(crd_of([q[0] / K for q in t], [q[1] / K for q in t], perm))
        vpar = VolumePar(x_lay=list(xl), z_min_lay=list(zl[0]), z_max_lay=list(zl[1]), cn=lim[0] / den,
                         cnx=lim[1] / den, cny=lim[2] / den, csumg=lim[3] / den, eps0=eps / K, corrmin=1.0)
        cpar = ControlPar(num_cams=ncam)
        pixx = 0.01
        cpar.set_image_size((int(2 * half[0] / pixx), int(2 * half[1] / pixx)))
        cpar.set_pixel_size((pixx, pixx))
        cpar.mm = optics.make_mm(mm)
        cals = [optics.make_cal(c) for c in cams]
        cl = safely_allocate_adjacency_lists(ncam, frm.num_targets)
        _, err = out.call(match_pairs, cl, corrected, frm, vpar, cpar, cals,
                          _desc={"counts": list(map(len, lists))})
        out.count("scenes")
        out.count(f"cams.{ncam}")
        tot = 0
        for a in range(ncam - 1):
            for b in range(a + 1, ncam):
                for i, q in enumerate(lists[a]):
                    if crowd and i % 9:
                        continue
                    v, dr = optics.trace(cams[a], mm, q[0] / K, q[1] / K)
                    f = (v[0] - xl[0]) / (xl[1] - xl[0])
                    e = []
                    for z in zl:
                        zz = z[0] + f * (z[1] - z[0])
                        x, y = optics.project(cams[b], mm, optics.at_z(v, dr, zz))
                        e += [round(x * K), round(y * K)]
                    cb = cams[b]
                    c = {"pts": lists[b], "xa": e[0], "ya": e[1], "xb": e[2], "yb": e[3], "eps": eps, "own": q[2:],
                         "lim": lim, "den": den, "sx0": round((-half[0] - cb["xh"]) * K),
                         "sx1": round((half[0] - cb["xh"]) * K), "sy0": round((-half[1] - cb["yh"]) * K),
                         "sy1": round((half[1] - cb["yh"]) * K), "slack": 4}
                    L2 = (e[0] - e[2]) ** 2 + (e[1] - e[3]) ** 2
                    if L2 < (4 * eps) ** 2 or max(map(abs, e)) > 15000:
                        continue
                    got, bad, p1 = [], err, -7
                    if not err:
                        row = cl[a][b][i]
                        p1 = int(row.p1)
                        got = [[int(row.p2[k]), int(round(float(row.dist[k]) * K * 1000)),
                                int(round(float(row.corr[k]) * 1000))] for k in range(int(row.n))]
                        if p1 != i:
                            bad = f"list of target {i} names target {p1}"
                    out.rec("pairs", {"kind": "row", "cams": [a, b], "i": i, "c": c, "got": got, "err": bad,
                                      "unchanged": True})
                    rows += 1
                    tot += len(got)
        out.count("rows.candidates", tot)
