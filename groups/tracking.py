"""C10-C15: tracking."""
import json
import math
import os

from groups.candidates import scene

A, B, C, D, E, F = ({"C1%d" % i} for i in range(6))
STEP = {"not-mutual": A, "added-ahead": D, "added-next": D, "targets-changed": D, "added-although-off": D,
        "observed-volume": C | D, "added-from-one-camera": D, "added-from-used-target": D, "added-elsewhere": D, "added-outside": D,
        "earlier-particles-changed": D | A,
        "inadmissible-link": C, "admissible-continuation-missed": C, "not-the-best": B, "wrong-winner": B,
        "counts": A | E, "rating": B, "other-continuation-rated": B | C, "wrong-frames": E, "failed": A | B | C | D | E}
RUN = {"failed": A | D | E, "frame-not-written-once": E, "other-frame-written": E, "wrong-particles": E | D,
       "files-not-mutual": A, "files-differ-from-memory": A | E}
BACK = {"failed": F, "particles-changed": F, "targets-changed": F, "other-file-written": F, "link-lost": F,
        "link-not-mutual": F, "start-of-link": F, "end-of-link": F, "link-beyond-limits": F, "gap-not-closed": F, "not-the-best": F,
        "wrong-frames": F, "mean-links": F}
PRIM = {"search-window": C, "prediction": C, "angle": C, "acceleration": C, "in-limits": C, "failed": C}


def run(ctx):
    p = ctx.prop
    jobs = []
    models = {"C10": ["MCTracking"], "C11": ["MCTracking"], "C12": ["MCTracking"],
              "C13": ["MCTracking", "MCTrackingAdd"], "C14": ["MCWindow"], "C15": ["MCBacktrack", "MCWindow"]}[p]
    if ctx.thorough:
        models = [m + "Big" if m in ("MCTracking", "MCWindow", "MCBacktrack") else m for m in models]
    ms = [ctx.pool.submit(ctx.model, m.replace("Big", "").replace("Add", ""), m + ".cfg", min_states=100, workers=2,
                          timeout=3400) for m in models]
    n = 8 if ctx.thorough else 3
    for i in range(n):
        jobs.append((ctx.pool.submit(ctx.drive, "tracking", "back" if p == "C15" else "steps", {"part": i}), i))
    prim = ctx.pool.submit(ctx.drive, "tracking", "primitives") if p == "C12" else None
    dirs = [fu.result() for fu, i in jobs]
    for d in dirs:
        for k, v in ctx.stats(d).items():
            ctx.clauses[k] = ctx.clauses.get(k, 0) + v
    if any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        return

    def merge(name):
        path = os.path.join(ctx.scratch, name + ".ndjson")
        with open(path, "w") as o:
            for d in dirs:
                q = os.path.join(d, name + ".ndjson")
                if os.path.exists(q):
                    o.write(open(q).read())
        return path

    if p == "C15":
        ctx.validate(merge("back"), "TraceBacktrack", lambda c: BACK[c], expect_min=20, label="backward runs",
                     timeout=1500)
    else:
        r = ctx.validate(merge("steps"), "TraceTracking", lambda c: STEP[c], expect_min=60, label="forward steps",
                         timeout=2500)
        for x in r.infos if r else []:
            ctx.clauses["particles.decided"] = ctx.clauses.get("particles.decided", 0) + int(x.split()[1])
        ctx.validate(merge("runs"), "TraceRuns", lambda c: RUN[c], expect_min=15, label="forward runs")
    if prim:
        d = prim.result()
        ctx.validate(os.path.join(d, "primitives.ndjson"), "TraceTrackPrimitives", lambda c: PRIM[c], expect_min=200,
                     label="search windows, angles, limits")
    for m in ms:
        m.result()
    ctx.assumptions += ["positions, projections and triangulations of the records come from an independent ray tracer",
                        "steps with a target within 1/32 pixel (1/128 in air) of a window border, a length within 0.3 micrometres or "
                        "a ratio within 6e-5 of a limit, or two ratings that nearly agree are not decided"]


# ------------------------------------------------------------------- drivers
W, H, PIX = 1280, 1024, 0.01
BIG = 300000000


def mil(v, s=1000000):
    v = v * s
    if v != v:
        return BIG
    return int(max(-BIG, min(BIG, round(v))))


class Scene:
    """Cameras, a sequence of frames and their files."""

    def __init__(self, rng, folder, n_frames, dense=True):
        from vlib import optics
        self.o = optics
        self.rng, self.dir = rng, folder
        self.nc = rng.choice([2, 3, 4, 4, 4, 1]) if rng.random() < .9 else 3
        self.cams, self.mm = scene(rng, self.nc, rng.choice(["air", "air", "air", "water"]))
        for c in self.cams:
            if rng.random() < .3:
                c["added"] = [rng.uniform(-2e-4, 2e-4), 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]
        self.first = rng.choice([1, 2, 8, 9, 97, 998, 9998, 99998, 999999])
        self.last = self.first + n_frames - 1
        v = rng.choice([.3, .6, 1.0, 1.6])
        asym = rng.random() < .4
        self.lim = [q for _ in range(3) for q in
                    ([-v * rng.uniform(.3, 1.3), v * rng.uniform(.3, 1.3)] if asym else [-v, v])]
        self.dacc = v * rng.choice([.15, .4, .8, 2.0])
        self.dangle = rng.choice([20.0, 60.0, 110.0, 220.0])
        self.add = rng.choice([0, 1, 1])
        self.v = v
        # the two sides of the volume need not be equally deep
        self.zlay = [[-12., -12.], [12., 12.]] if rng.random() < .5 else \
            [[-12., rng.uniform(-12, -4)], [12., rng.uniform(4, 12)]]
        for z in self.zlay:
            rng.shuffle(z)
        self.make(n_frames)

    def make(self, nf):
        rng, o = self.rng, self.o
        far = rng.random() < .15
        mid = [rng.uniform(-38, 38), rng.uniform(-30, 30), rng.uniform(-9, 9)] if far else \
            [rng.uniform(-8, 8), rng.uniform(-8, 8), rng.uniform(-9, 9)]
        edge = rng.random() < .2                      # flights across a border of the volume in depth
        if edge:
            mid[2] = rng.choice([-12, 12]) * rng.uniform(.95, 1.0)
            self.add, self.dacc = 1, self.v * .3
        self.mid = mid
        spread = self.v * rng.choice([.6, 1.5, 3.0, 6.0])
        tracks = []
        self.same = set()
        nt = rng.choice([1, 3, 5, 7, 9, 12])
        for _ in range(nt):
            x = [m + rng.uniform(-spread, spread) for m in mid]
            vel = [rng.uniform(self.lim[2 * a], self.lim[2 * a + 1]) * rng.uniform(.1, .95) for a in range(3)]
            if edge:
                vel[2] = (self.lim[5] if mid[2] > 0 else self.lim[4]) * rng.uniform(.3, .9)
                x[2] = mid[2] - vel[2] * rng.uniform(1, nf)
            path = []
            wild = rng.random() < .2
            for f in range(nf):
                path.append([round(q, 3) for q in x])
                s = self.dacc * rng.choice([.01, .05, .2]) * (4 if wild else 1)
                vel = [w + rng.gauss(0, s) for w in vel]
                if rng.random() < .05:
                    vel = [-w for w in vel]
                x = [a + b for a, b in zip(x, vel)]
            tracks.append(path)
        # fast straight flight along an axis close to the limit, reversals and stops
        if rng.random() < .3:
            a = rng.randrange(3)
            s = rng.choice([0, 1])
            d = self.lim[2 * a + s] * rng.choice([.97, .995, 1.005, 1.03])
            x = [m + rng.uniform(-spread, spread) for m in mid]
            tracks.append([[round(x[b] + (d * f if b == a else 0), 3) for b in range(3)] for f in range(nf)])
        if rng.random() < .25:
            tracks.append([list(q) for q in rng.choice(tracks)])          # a twin
        if rng.random() < .2:
            q = rng.choice(tracks)
            tracks.append([list(q[0]) for _ in range(nf)])                # one that rests
        # exact twins that come into being together; only one of them lives on
        if rng.random() < .4:
            q = rng.choice([t for t in tracks if t[0] is not None])
            f = rng.choice([0, 0, rng.randrange(nf)])
            self.same = {(f, tuple(q[f]))}
            k = tracks.index(q)
            tracks[k] = [None] * f + q[f:]
            for _ in range(rng.choice([1, 1, 2])):
                tracks.insert(rng.randrange(len(tracks) + 1), [q[g] if g == f else None for g in range(nf)])
        # a rival that arrives at the same place and vanishes
        if rng.random() < .5 and len(tracks) > 1:
            q = rng.choice([t for t in tracks if all(g is not None for g in t)] or [tracks[0]])
            f = rng.randrange(nf)
            tracks.append([[round(z + .3 * self.v * rng.gauss(0, 1), 3) for z in q[g]] if g <= f else None
                           for g in range(nf)] if all(g is not None for g in q) else list(q))
        self.frames = []
        px = .25 if rng.random() < .5 else .02
        loss, free = rng.choice([(.02, .05), (.08, .15), (.02, .35)]) if not edge else (.02, .35)
        for f in range(nf):
            parts, targets = [], [[] for _ in range(self.nc)]
            items = [(i, t[f]) for i, t in enumerate(tracks) if t[f] is not None]
            rng.shuffle(items)
            for ident, x in items:
                u = rng.random()
                twin = (f, tuple(x)) in self.same
                if twin:
                    u = 1.0
                if u < loss:
                    continue
                matched = u > loss + (free if f else .05)
                see = [c for c in range(self.nc) if twin or rng.random() < .9]
                if len(see) < min(2, self.nc):
                    see = list(range(self.nc))
                p = [-1] * 4
                got = []
                for c in see:
                    a, b = o.to_pixel(self.cams[c], self.mm, x, W, H, PIX)
                    sd = 0.0 if twin else px
                    a, b = round(a + rng.gauss(0, sd), 4), round(b + rng.gauss(0, sd), 4)
                    if 0 <= a < W and 0 <= b < H:
                        got.append((c, [a, b, -1]))
                if matched and len(got) >= min(2, self.nc):
                    parts.append({"x": x, "p": p, "id": ident})
                    for c, t in got:
                        t[2] = len(parts) - 1
                for c, t in got:
                    targets[c].append(t)
                    if rng.random() < .06:
                        targets[c].append([round(t[0] + rng.uniform(-4, 4), 4), round(t[1] + rng.uniform(-4, 4), 4), -1])
            if f > 0 and rng.random() < .04:
                parts, targets = [], [[[a, b, -1] for a, b, _ in t] for t in targets]
            for c in range(self.nc):
                targets[c] = sorted([t for t in targets[c] if 0 <= t[0] < W and 0 <= t[1] < H], key=lambda t: t[1])
                for i, t in enumerate(targets[c]):
                    if t[2] >= 0:
                        parts[t[2]]["p"][c] = i
            self.frames.append({"parts": parts, "targets": targets})
        self.write()

    def write(self):
        self.base = os.path.join(self.dir, "res")
        os.makedirs(self.base, exist_ok=True)
        os.makedirs(os.path.join(self.dir, "img"), exist_ok=True)
        self.rt = os.path.join(self.base, "rt_is")
        self.ptv = os.path.join(self.base, "ptv_is")
        self.prio = os.path.join(self.base, "added")
        self.img = [os.path.join(self.dir, "img", "cam%d.%%05d" % (c + 1)) for c in range(self.nc)]
        # the neighbours outside the sequence exist as well
        for n, fr in [(self.first + i, f) for i, f in enumerate(self.frames)] + \
                [(self.first - 1, self.frames[0])] + ([(self.last + 1, self.frames[-1]), (self.last + 2, self.frames[-1])]
                                               if self.rng.random() < .7 else []):
            if n < 1:
                continue
            with open("%s.%d" % (self.rt, n), "w") as f:
                f.write("%d\n" % len(fr["parts"]))
                for i, q in enumerate(fr["parts"]):
                    f.write("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % tuple([i + 1] + q["x"] + q["p"]))
            for c in range(self.nc):
                with open(self.img[c] % n + "_targets", "w") as f:
                    f.write("%d\n" % len(fr["targets"][c]))
                    for i, t in enumerate(fr["targets"][c]):
                        f.write("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % (i, t[0], t[1], 9 + i % 5, 3, 3, 900 + i, t[2]))

    def tracking_run_from_files(self):
        """The same run from the parameter text files."""
        from pathlib import Path
        from openptv_python.tracking_run import tr_new
        d = os.path.join(self.dir, "par")
        os.makedirs(d, exist_ok=True)
        m = self.mm

        def put(name, values):
            with open(os.path.join(d, name), "w") as f:
                f.write("".join("%s\n" % (repr(v) if isinstance(v, float) else v) for v in values))
            return Path(d) / name
        cp = put("ptv.par", [self.nc] + [v for c in range(self.nc) for v in ("img/cam%d" % c, "cal/cam%d" % c)] +
                 [1, 0, 1, W, H, PIX, PIX, 0, m["n1"], m["n2"], m["n3"], m["d"]])
        sp = put("sequence.par", self.img + [self.first, self.last])
        tp = put("track.par", self.lim + [self.dangle, self.dacc, self.add])
        vp = put("criteria.par", [-30.0, self.zlay[0][0], self.zlay[1][0], 30.0, self.zlay[0][1], self.zlay[1][1], .3, .3, .3, .1, 33.0, .1])
        return tr_new(sp, tp, vp, cp, 4, 64, self.rt, self.ptv, self.prio,
                      [self.o.make_cal(c) for c in self.cams], 1e-9)

    def tracking_run(self):
        if self.rng.random() < .35:
            return self.tracking_run_from_files()
        from openptv_python.parameters import ControlPar, SequencePar, TrackPar, VolumePar, convert_track_par_to_tuple
        from openptv_python.tracking_run import TrackingRun
        cpar = ControlPar(num_cams=self.nc)
        cpar.set_image_size((W, H))
        cpar.set_pixel_size((PIX, PIX))
        cpar.mm = self.o.make_mm(self.mm)
        vpar = VolumePar(x_lay=[-30., 30.], z_min_lay=list(self.zlay[0]), z_max_lay=list(self.zlay[1]), cn=.3, cnx=.3, cny=.3,
                         csumg=.1, eps0=.1, corrmin=33.)
        tpar = TrackPar(dvxmin=self.lim[0], dvxmax=self.lim[1], dvymin=self.lim[2], dvymax=self.lim[3],
                        dvzmin=self.lim[4], dvzmax=self.lim[5], dangle=self.dangle, dacc=self.dacc, add=self.add,
                        dsumg=0, dn=0, dnx=0, dny=0)
        spar = SequencePar(img_base_name=list(self.img), first=self.first, last=self.last)
        run = TrackingRun(spar, convert_track_par_to_tuple(tpar), vpar, cpar, 4, 64, self.rt, self.ptv, self.prio,
                          [self.o.make_cal(c) for c in self.cams], 1e-9)
        return run

    # ------------------------------------------------------------ geometry
    def box(self):
        """What the corners of the images see at the nearest and farthest depth, about the given volume."""
        xs, ys = [-30., 30.], [0.]
        for c in self.cams:
            for u in (0, W):
                for v in (0, H):
                    ray = self.o.trace(c, self.mm, *self.o.pixel_to_flat(c, u, v, W, H, PIX))
                    for z in (-12., 12.):
                        q = self.o.at_z(*ray, z)
                        xs.append(float(q[0]))
                        ys.append(float(q[1]))
        return [min(xs), max(xs), min(ys), max(ys), -12., 12.]

    def pixel(self, c, X):
        return self.o.to_pixel(self.cams[c], self.mm, X, W, H, PIX)

    def window(self, X, own=None):
        """Search window of every camera: centre and extents (pixels)."""
        res = []
        for c in range(self.nc):
            ctr = self.pixel(c, X)
            xs, ys = [], []
            for k in range(8):
                q = [X[a] + self.lim[2 * a + (k >> a & 1)] for a in range(3)]
                u, v = self.pixel(c, q)
                xs.append(u)
                ys.append(v)
            xl, xr = max(0.0, min(W, min(xs))), min(W, max(0.0, max(xs)))
            yu, yd = max(0.0, min(H, min(ys))), min(H, max(0.0, max(ys)))
            e = [ctr[0] - xl, xr - ctr[0], ctr[1] - yu, yd - ctr[1]]
            z = own[c] if own and own[c] is not None else ctr
            res.append([z[0], z[1]] + e)
        return res


def q256(w):
    return [[int(round(v * 256)) if abs(v) < 1e6 else BIG for v in c] for c in w]


def norm(a):
    return math.sqrt(sum(x * x for x in a))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def turn(start, pred, cand):
    """Angle [gon] and distance between the steps from start to pred and from start to cand."""
    a, b = sub(pred, start), sub(cand, start)
    acc = norm(sub(a, b))
    na, nb = norm(a), norm(b)
    if acc == 0:
        return 0.0, 0.0
    if all(x == -y for x, y in zip(a, b)):
        return 200.0, acc
    if na == 0 or nb == 0:
        return 0.0, acc
    cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return 200 / math.pi * math.atan2(norm(cr), sum(x * y for x, y in zip(a, b))), acc


def snap(frame, nc):
    return {"n": int(frame.num_parts),
            "x": [[float(v) for v in frame.path_info[i].x] for i in range(frame.num_parts)],
            "prev": [int(frame.path_info[i].prev_frame) for i in range(frame.num_parts)],
            "next": [int(frame.path_info[i].next_frame) for i in range(frame.num_parts)],
            "fin": [float(frame.path_info[i].finaldecis) for i in range(frame.num_parts)],
            "p": [[int(v) for v in frame.correspond[i].p[:nc]] for i in range(frame.num_parts)],
            "t": [[[float(t.x), float(t.y), int(t.tnr)] for t in frame.targets[c][:frame.num_targets[c]]]
                  for c in range(nc)]}


def same_content(s, fr, nc):
    """Snapshot s holds the particles and targets of scene frame fr."""
    return (s["n"] == len(fr["parts"]) and all(norm(sub(a, q["x"])) < 1e-6 for a, q in zip(s["x"], fr["parts"]))
            and all(a == q["p"][:nc] for a, q in zip(s["p"], fr["parts"]))
            and all(len(s["t"][c]) == len(fr["targets"][c]) and
                    all(abs(t[0] - u[0]) < 1e-6 and abs(t[1] - u[1]) < 1e-6 and t[2] == u[2]
                        for t, u in zip(s["t"][c], fr["targets"][c])) for c in range(nc)))


def as_scene(s):
    return {"parts": [{"x": x, "p": p} for x, p in zip(s["x"], s["p"])], "targets": s["t"]}


def listing(sc):
    res = {}
    for d in (sc.base, os.path.join(sc.dir, "img")):
        for n in os.listdir(d):
            st = os.stat(os.path.join(d, n))
            res[n] = (st.st_mtime_ns, st.st_ino, st.st_size)
    return res


def geometry(sc, run, b0, b1, b2, b3, a2, a3, last):
    """What the record of a step says about every particle h, candidate m and continuation k."""
    o, nc = sc.o, sc.nc
    lmax = norm([sc.lim[1] - sc.lim[0], sc.lim[3] - sc.lim[2], sc.lim[5] - sc.lim[4]])
    L = 10000
    rays = {}

    def ray(c, t):
        key = (c, t[0], t[1])
        if key not in rays:
            u, v = o.pixel_to_flat(sc.cams[c], t[0], t[1], W, H, PIX)
            rays[key] = o.trace(sc.cams[c], sc.mm, u, v)
        return rays[key]

    def near(t, q, margin):
        return any(-q[k][2] - margin < u[0] - q[k][0] < q[k][3] + margin and
                   -q[k][4] - margin < u[1] - q[k][1] < q[k][5] + margin for k in range(nc) for u in t[k])

    def reach(t, q, margin):
        """Particles with a target in (or nearly in) a window."""
        return {u[2] for k in range(nc) for u in t[k] if u[2] >= 0 and
                -q[k][2] - margin < u[0] - q[k][0] < q[k][3] + margin and
                -q[k][4] - margin < u[1] - q[k][1] < q[k][5] + margin}

    def rel(start, pred, cand, dl):
        ang, acc = turn(start, pred, cand)
        return {"acc": mil(acc / sc.dacc), "ang": mil(ang / sc.dangle), "dl": mil(dl / lmax)}

    def new(tgt, q, make):
        """All ways to make a particle of unused targets within 3 pixels of the centre."""
        opts = []
        for c in range(nc):
            cand = [(math.hypot(t[0] - q[c][0], t[1] - q[c][1]), i) for i, t in enumerate(tgt[c]) if t[2] == -1
                    and abs(t[0] - q[c][0]) < 3.1 and abs(t[1] - q[c][1]) < 3.1]
            opts.append([-1] + [i for _, i in sorted(cand)[:4]])
        if sum(len(p) > 1 for p in opts) < 2:
            return []
        combos = [[]]
        for p in opts:
            combos = [a + [b] for a in combos for b in p]
        res = []
        for t in combos:
            use = [c for c in range(nc) if t[c] >= 0]
            if len(use) < 2 or len(res) > 100:
                continue
            x, _ = o.closest([ray(c, tgt[c][t[c]]) for c in use])
            x = [float(v) for v in x]
            e = make(x)
            e["t"] = t
            e["x"] = [mil(v, L) for v in x]
            res.append(e)
        return res

    parts = []
    classes = {}
    for h in range(b1["n"]):
        X1 = b1["x"][h]
        prev = b1["prev"][h]
        has = prev >= 0
        X0 = b0["x"][prev] if has else [0.0] * 3
        X2 = [2 * a - b for a, b in zip(X1, X0)] if has else list(X1)
        own = None
        if not has:
            own = [b1["t"][c][b1["p"][h][c]][:2] if b1["p"][h][c] >= 0 else None for c in range(nc)]
        q = sc.window(X2, own)
        key = json.dumps([X0, X1, has, own])
        P = {"prev": has, "twin": classes.setdefault(key, len(classes)), "q": q256(q), "m": [], "lost": []}
        cand = reach(a2["t"], q, 1.0)
        for m in range(a2["n"]):
            if m not in cand:
                P["m"].append({})
                continue
            X3 = a2["x"][m]
            X5 = [.5 * (5 * c - 4 * b + a) for a, b, c in zip(X0, X1, X3)] if has else [2 * c - b for b, c in zip(X1, X3)]
            D = {"d": [mil(v, L) for v in sub(X3, X1)]}
            if has:
                D.update(rel(X1, X2, X3, (norm(sub(X1, X3)) + norm(sub(X0, X1))) / 2))
            else:
                D.update({"acc": 0, "ang": 0, "dl": 0})
            D["q"], D["k"], D["new"] = [], [], []
            if not last:
                q5 = sc.window(X5)
                D["q"] = q256(q5)
                c5 = reach(a3["t"], q5, 1.0)
                for k in range(a3["n"]):
                    if k not in c5:
                        D["k"].append({})
                        continue
                    X4 = a3["x"][k]
                    E = {"d": [mil(v, L) for v in sub(X4, X3)]}
                    E.update(rel(X3, X4, X5, (norm(sub(X1, X3)) + norm(sub(X4, X3))) / 2))
                    D["k"].append(E)

                def make(x):
                    e = {"d": [mil(v, L) for v in sub(X3, x)]}
                    e.update(rel(X3, x, X5, (norm(sub(X1, X3)) + norm(sub(x, X3))) / 2))
                    return e
                D["new"] = new(b3["t"], q5, make)
            P["m"].append(D)
        if has and sc.add:
            ctr = [list(sc.pixel(c, X2)) for c in range(nc)]

            def make2(x):
                e = {"d": [mil(v, L) for v in sub(X2, x)]}
                e.update(rel(X1, X2, x, (norm(sub(X1, x)) + norm(sub(X0, X1))) / 2))
                return e
            P["lost"] = new(b2["t"], ctr, make2)
        parts.append(P)
    # where the added particles are
    off = 0
    for a, b in ((a2, b2), (a3, b3)):
        if a is None:
            continue
        for i in range(b["n"], a["n"]):
            use = [c for c in range(nc) if 0 <= a["p"][i][c] < len(b["t"][c])]
            if len(use) > 1:
                x, _ = o.closest([ray(c, b["t"][c][a["p"][i][c]]) for c in use])
                off = max(off, mil(norm(sub([float(v) for v in x], a["x"][i])), L))
    return parts, off


def t256(t):
    return [[[int(round(a * 256)), int(round(b * 256)), n] for a, b, n in c] for c in t]


def steps(out):
    import random
    from openptv_python.track import track_forward_start, trackcorr_c_finish, trackcorr_c_loop
    import shutil
    part = out.args["part"]
    rng = random.Random(out.seed * 7919 + part)
    n = 220 if out.thorough else 32
    for it in range(n):
        folder = os.path.join(out.dir, "s%d" % it)
        os.makedirs(folder)
        sc = Scene(rng, folder, rng.choice([2, 3, 4, 5, 6, 7]))
        nc = sc.nc
        desc = {"cams": nc, "frames": [sc.first, sc.last], "scene": it, "part": part}
        written = []
        before = listing(sc)

        def look():
            nonlocal before
            now = listing(sc)
            w = sorted(k for k in now if before.get(k) != now[k])
            before = now
            return w

        def frames_of(names):
            res = []
            for k in names:
                if k.startswith("ptv_is."):
                    res.append(int(k.split(".")[1]))
            return res

        def strays(names):
            return [k for k in names if not any(("%s.%d" % (b, s)) == k for b in ("rt_is", "ptv_is", "added")
                                                for s in range(sc.first, sc.last + 1))
                    and not any(os.path.basename(b % s + "_targets") == k for b in sc.img
                                for s in range(sc.first, sc.last + 1))]
        bad = []
        run, err = out.call(sc.tracking_run, _desc=desc)
        vol0 = [run.vpar.x_lay[0], run.vpar.x_lay[1], run.ymin, run.ymax, run.vpar.z_min_lay[0], run.vpar.z_max_lay[1]] if not err else []
        if not err and rng.random() < .4:
            # the observed volume ends within the cloud
            a = rng.randrange(3)
            lo = rng.random() < .5
            z = sc.mid[a] + sc.v * rng.gauss(0, 1)
            if a == 0:
                run.vpar.x_lay[0 if lo else 1] = z
            elif a == 1:
                if lo:
                    run.ymin = z
                else:
                    run.ymax = z
            elif lo:
                run.vpar.z_min_lay[0] = z
            else:
                run.vpar.z_max_lay[1] = z
            out.count("scenes.narrow-volume")
        if not err:
            _, err = out.call(track_forward_start, run, _desc=desc)
            names = look()
            written += frames_of(names)
            bad += strays(names)
        state = {sc.first + i: f for i, f in enumerate(sc.frames)}
        hist = {}
        was = [0, 0]
        for s in range(sc.first, sc.last):
            if err:
                break
            last = s + 2 > sc.last
            b = [snap(f, nc) for f in run.fb.buf]
            window = all(same_content(b[j], state[s - 1 + j], nc) for j in range(4)
                         if sc.first <= s - 1 + j <= sc.last)
            objs = list(run.fb.buf)
            _, err = out.call(trackcorr_c_loop, run, s, _desc=dict(desc, step=s))
            names = look()
            written += frames_of(names)
            bad += strays(names)
            if err:
                break
            counts = [int(run.npart) - was[0], int(run.nlinks) - was[1]]
            was = [int(run.npart), int(run.nlinks)]
            a1, a2 = snap(objs[1], nc), snap(objs[2], nc)
            a0 = None if s == sc.first else snap(run.fb.buf[3], nc) if last else None
            a3 = None if last else snap(objs[3], nc)
            add2 = a2["p"][b[2]["n"]:]
            add3 = [] if last else a3["p"][b[3]["n"]:]
            kept = (a1["x"] == b[1]["x"] and a1["p"] == b[1]["p"] and a1["prev"] == b[1]["prev"] and a1["t"] == b[1]["t"]
                    and a2["x"][:b[2]["n"]] == b[2]["x"] and a2["p"][:b[2]["n"]] == b[2]["p"]
                    and set(a2["next"]) <= {-2} and a1["n"] == b[1]["n"])
            if a3 is not None:
                kept = (kept and a3["x"][:b[3]["n"]] == b[3]["x"] and a3["p"][:b[3]["n"]] == b[3]["p"]
                        and set(a3["next"]) <= {-2} and set(a3["prev"]) <= {-1})
            if not window:
                rec = {"err": "", "add": bool(sc.add), "last": last, "window": False}
                parts, off = [], 0
            else:
                parts, off = geometry(sc, run, b[0], b[1], b[2], b[3] if not last else None, a2, a3, last)
            L = 10000
            vol = [run.vpar.x_lay[0], run.vpar.x_lay[1], run.ymin, run.ymax, run.vpar.z_min_lay[0], run.vpar.z_max_lay[1]]
            rec = {"err": "", "step": s, "add": bool(sc.add), "last": last, "window": bool(window), "kept": bool(kept),
                   "lim": [mil(v, L) for v in sc.lim], "vol": [mil(v, L) for v in vol], "vol0": [mil(v, L) for v in vol0], "box": [mil(v, L) for v in sc.box()], "w": W * 256, "h": H * 256, "pm": 2 if sc.mm["n3"] == 1 else 8,
                   "t2": t256(b[2]["t"]), "t3": [] if last else t256(b[3]["t"]), "n2": b[2]["n"],
                   "n3": 0 if last else b[3]["n"], "add2": add2, "add3": add3, "part": parts, "off": off, "counts": counts,
                   "next": a1["next"], "fin": [mil(v) if v < 1000 else 1000000000 for v in a1["fin"]],
                   "prev2": a2["prev"], "a2": t256(a2["t"]), "a3": [] if last else t256(a3["t"])}
            out.rec("steps", rec)
            out.count("links", sum(v >= 0 for v in a1["next"]))
            out.count("particles", len(a1["next"]))
            out.count("added", len(add2) + len(add3))
            state[s + 1] = as_scene(a2)
            if not last:
                state[s + 2] = as_scene(a3)
            hist[s] = a1
        if err:
            out.rec("steps", {"err": err})
        if not err:
            fin = snap(run.fb.buf[1], nc)
            _, err = out.call(trackcorr_c_finish, run, sc.last, _desc=desc)
            names = look()
            written += frames_of(names)
            bad += strays(names)
            hist[sc.last] = fin
        rec = {"err": err, "first": sc.first, "last": sc.last, "written": written, "strays": sorted(set(bad)),
               "files": [], "links": [], "start": [[[mil(v, 1000) for v in q["x"]] + q["p"] for q in f["parts"]]
                                                   for f in sc.frames]}
        if not err:
            for s in range(sc.first, sc.last + 1):
                rows, l = [], []
                try:
                    ls = open("%s.%d" % (sc.rt, s)).read().split("\n")[1:]
                    rows = [[mil(float(v), 1000) for v in x.split()[1:4]] + [int(v) for v in x.split()[4:8]]
                            for x in ls if x.strip()]
                    ls = open("%s.%d" % (sc.ptv, s)).read().split("\n")[1:]
                    l = [[int(v) for v in x.split()[:2]] + [mil(float(v), 1000) for v in x.split()[2:5]]
                         for x in ls if x.strip()]
                except (OSError, ValueError, IndexError) as e:
                    rec["err"] = "results unreadable: " + str(e)[:100]
                rec["files"].append(rows)
                rec["links"].append(l)
            rec["memory"] = [[[p, q] + [mil(v, 1000) for v in x] + c + [-1] * (4 - nc) for p, q, x, c in
                              zip(hist[s]["prev"], hist[s]["next"], hist[s]["x"], hist[s]["p"])]
                             for s in range(sc.first, sc.last + 1)]
        out.rec("runs", rec)
        shutil.rmtree(folder, ignore_errors=True)


def back(out):
    """Backward tracking over forward results with gaps."""
    import random
    import shutil
    from openptv_python.track import trackback_c
    rng = random.Random(out.seed * 104729 + out.args["part"])
    n = 260 if out.thorough else 38
    L = 10000
    for it in range(n):
        folder = os.path.join(out.dir, "b%d" % it)
        os.makedirs(folder)
        nf = rng.choice([2, 3, 4, 4, 5, 6, 7])
        sc = Scene(rng, folder, nf)
        nc = sc.nc
        keep = rng.choice([.5, .75, .95])
        links = [[[-1, -2] for _ in f["parts"]] for f in sc.frames]
        for f in range(nf - 1):
            nxt = {q["id"]: i for i, q in enumerate(sc.frames[f + 1]["parts"])}
            for i, q in enumerate(sc.frames[f]["parts"]):
                if q["id"] in nxt and links[f + 1][nxt[q["id"]]][0] == -1 and rng.random() < keep:
                    links[f][i][1] = nxt[q["id"]]
                    links[f + 1][nxt[q["id"]]][0] = i
                elif rng.random() < .05:                     # a wrong link
                    free = [j for j in range(len(links[f + 1])) if links[f + 1][j][0] == -1]
                    if free:
                        j = rng.choice(free)
                        links[f][i][1] = j
                        links[f + 1][j][0] = i
        prio = [[rng.choice([0, 1, 2, 4]) for _ in f["parts"]] for f in sc.frames]
        nums = list(range(sc.first, sc.last + 1))
        for f, s in enumerate(nums):
            with open("%s.%d" % (sc.ptv, s), "w") as o, open("%s.%d" % (sc.prio, s), "w") as w:
                o.write("%d\n" % len(links[f]))
                w.write("%d\n" % len(links[f]))
                for l, q, p in zip(links[f], sc.frames[f]["parts"], prio[f]):
                    o.write("%4d %4d %10.3f %10.3f %10.3f\n" % tuple(l + q["x"]))
                    w.write("%4d %4d %10.3f %10.3f %10.3f %d\n" % tuple(l + q["x"] + [p]))
        before = listing(sc)
        desc = {"cams": nc, "frames": [sc.first, sc.last], "scene": it, "part": out.args["part"]}
        run, err = out.call(sc.tracking_run, _desc=desc)
        if not err:
            mean, err = out.call(trackback_c, run, _desc=desc)
        after = listing(sc)
        names = {"%s.%d" % (b, s) for b in ("rt_is", "ptv_is", "added") for s in nums} | \
            {os.path.basename(b % s + "_targets") for b in sc.img for s in nums}
        rec = {"err": err, "first": sc.first, "last": sc.last,
               "strays": sorted(k for k in after if after[k] != before.get(k) and k not in names),
               "before": links, "after": [], "same": [], "tsame": True, "t": [], "geo": [],
               "mean": mil(float(mean), 1000) if not err else 0}
        if not err:
            try:
                for f, s in enumerate(nums):
                    rows = [x.split() for x in open("%s.%d" % (sc.rt, s)).read().split("\n")[1:] if x.strip()]
                    lk = [x.split() for x in open("%s.%d" % (sc.ptv, s)).read().split("\n")[1:] if x.strip()]
                    pr = [x.split() for x in open("%s.%d" % (sc.prio, s)).read().split("\n")[1:] if x.strip()]
                    P = sc.frames[f]["parts"]
                    ok = len(rows) == len(lk) == len(pr) == len(P) and \
                        [[mil(float(v), 1000) for v in x[1:4]] + [int(v) for v in x[4:8]] for x in rows] == \
                        [[mil(v, 1000) for v in q["x"]] + q["p"] for q in P] and \
                        all([mil(float(v), 1000) for v in x[2:5]] == [mil(v, 1000) for v in q["x"]] for x, q in zip(lk, P)) and \
                        [int(x[5]) for x in pr] == prio[f] and [x[:2] for x in lk] == [x[:2] for x in pr]
                    rec["same"].append(ok)
                    rec["after"].append([[int(x[0]), int(x[1])] for x in lk])
                    for c in range(nc):
                        t = [x.split() for x in open(sc.img[c] % s + "_targets").read().split("\n")[1:] if x.strip()]
                        if [[round(float(x[1]), 4), round(float(x[2]), 4), int(x[7])] for x in t] != sc.frames[f]["targets"][c]:
                            rec["tsame"] = False
            except (OSError, ValueError, IndexError) as e:
                rec["err"] = "results unreadable: " + str(e)[:100]
        if not rec["err"] and all(rec["same"]):
            rec.update({"lim": [mil(v, L) for v in sc.lim], "w": W * 256, "h": H * 256,
                        "pm": 2 if sc.mm["n3"] == 1 else 8})
            lmax = norm([sc.lim[1] - sc.lim[0], sc.lim[3] - sc.lim[2], sc.lim[5] - sc.lim[4]])
            X = [[q["x"] for q in f["parts"]] for f in sc.frames]
            for f in range(nf):
                rec["t"].append(t256(sc.frames[f]["targets"]))
                geo = []
                for h in range(len(X[f])):
                    nx = rec["after"][f][h][1]
                    if f == 0 or f == nf - 1 or links[f][h][0] != -1 or not 0 <= nx < len(X[f + 1]):
                        continue
                    X0, X1 = X[f + 1][nx], X[f][h]
                    X2 = [2 * a - b for a, b in zip(X1, X0)]
                    g = {"h": h, "q": q256(sc.window(X2)), "m": []}
                    for m, X3 in enumerate(X[f - 1]):
                        ang, acc = turn(X1, X2, X3)
                        D = {"d": [mil(v, L) for v in sub(X1, X3)], "acc": mil(acc / sc.dacc), "ang": mil(ang / sc.dangle),
                             "dl": mil((norm(sub(X1, X3)) + norm(sub(X0, X1))) / 2 / lmax), "ka": 0, "kn": 0}
                        p = links[f - 1][m][0]
                        if p >= 0:
                            X4 = X[f - 2][p]
                            X5 = [.5 * (5 * c - 4 * b + a) for a, b, c in zip(X0, X1, X3)]
                            ang, acc = turn(X3, X4, X5)
                            D["ka"], D["kn"] = mil(acc / sc.dacc), mil(ang / sc.dangle)
                        g["m"].append(D)
                    geo.append(g)
                    out.count("gaps")
                    out.count("gaps.closed", rec["after"][f][h][0] != -1)
                rec["geo"].append(geo)
        out.rec("back", rec)
        shutil.rmtree(folder, ignore_errors=True)


def primitives(out):
    import numpy as np
    from openptv_python.parameters import ControlPar, TrackPar, convert_track_par_to_tuple
    from openptv_python.track import angle_acc, pos3d_in_bounds, predict, search_volume_center_moving, searchquader
    from vlib import optics
    rng = out.rng
    n = 6000 if out.thorough else 700
    for it in range(n):
        lim = []
        for a in range(3):
            lo = rng.randint(-20, 10)
            lim += [lo, lo + rng.randint(1, 20)]
        tp = convert_track_par_to_tuple(TrackPar(dvxmin=lim[0] / 4, dvxmax=lim[1] / 4, dvymin=lim[2] / 4,
                                                 dvymax=lim[3] / 4, dvzmin=lim[4] / 4, dvzmax=lim[5] / 4))
        x = [rng.choice([lim[2 * a], lim[2 * a + 1], rng.randint(lim[2 * a] - 1, lim[2 * a + 1] + 1),
                         rng.randint(lim[2 * a], lim[2 * a + 1])]) if rng.random() < .5 else
             rng.randint(lim[2 * a] + 1, max(lim[2 * a] + 1, lim[2 * a + 1] - 1)) for a in range(3)]
        got, err = out.call(pos3d_in_bounds, np.array([v / 4 for v in x]), tp, _desc={"x": x, "lim": lim})
        out.rec("primitives", {"kind": "bounds", "err": err, "x": x, "lim": lim, "got": bool(got)})
        s = [rng.randint(-5, 5) for _ in range(3)]
        v = [rng.randint(-4, 4) for _ in range(3)]
        u = rng.random()
        if u < .2:
            k = rng.choice([-2, -1, 1, 2, 3])
            w = [k * a for a in v]
        elif u < .3:
            w = [v[1], -v[0], 0] if rng.random() < .5 else [0, 0, 0]
        else:
            w = [rng.randint(-9, 9) for _ in range(3)]
        if rng.random() < .05:
            v = [0, 0, 0]
        p, c = [a + b for a, b in zip(s, v)], [a + b for a, b in zip(s, w)]
        f = [np.array(q, float) for q in (s, p, c)]
        got, err = out.call(angle_acc, *f, _desc={"start": s, "pred": p, "cand": c})
        ref = turn(s, p, c)[0]
        out.rec("primitives", {"kind": "turn", "err": err, "s": s, "p": p, "c": c, "ang": mil(got[0]) if not err else 0,
                               "acc": mil(got[1], 1000) if not err else 0, "ref": mil(ref)})
        a, b = [rng.randint(-999, 999) for _ in range(3)], [rng.randint(-999, 999) for _ in range(3)]
        got, err = out.call(search_volume_center_moving, np.array(a, float), np.array(b, float))
        out.rec("primitives", {"kind": "ahead", "err": err, "a": a, "b": b,
                               "got": [int(v) for v in got] if not err else [0]})
        o2 = np.zeros(2)
        _, err = out.call(predict, np.array(a[:2], float), np.array(b[:2], float), o2)
        out.rec("primitives", {"kind": "ahead", "err": err, "a": a[:2], "b": b[:2], "got": [int(v) for v in o2]})
    n = 1500 if out.thorough else 160
    for it in range(n):
        sc = object.__new__(Scene)
        sc.o, sc.rng = optics, rng
        sc.nc = rng.randint(1, 4)
        sc.cams, sc.mm = scene(rng, sc.nc, rng.choice(["air", "water", "tilted"]))
        v = rng.choice([.3, 1.0, 3.0, 12.0])
        sc.lim = [q for _ in range(3) for q in [-v * rng.uniform(-.2, 1.3), v * rng.uniform(.3, 1.3)]]
        far = rng.random() < .5
        X = [rng.uniform(-44, 44), rng.uniform(-36, 36), rng.uniform(-10, 10)] if far else [rng.uniform(-9, 9) for _ in range(3)]
        cpar = ControlPar(num_cams=sc.nc)
        cpar.set_image_size((W, H))
        cpar.set_pixel_size((PIX, PIX))
        cpar.mm = optics.make_mm(sc.mm)
        tp = convert_track_par_to_tuple(TrackPar(dvxmin=sc.lim[0], dvxmax=sc.lim[1], dvymin=sc.lim[2],
                                                 dvymax=sc.lim[3], dvzmin=sc.lim[4], dvzmax=sc.lim[5]))
        r, err = out.call(searchquader, np.array(X), tp, cpar, [optics.make_cal(c) for c in sc.cams],
                          _desc={"X": X, "lim": sc.lim})
        ref = [[q[3], q[2], q[5], q[4]] for q in sc.window(X)]
        out.rec("primitives", {"kind": "window", "err": err, "tol": 3 if sc.mm["n3"] == 1 else 10,
                               "ref": [[int(round(v * 256)) for v in c] for c in ref],
                               "got": [[int(round(float(r[k][c]) * 256)) for k in range(4)] for c in range(sc.nc)]
                               if not err else []})
