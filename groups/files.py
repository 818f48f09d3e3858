"""C16-C18: result files and target files, and what damage does to them."""
import os

P, T, D = {"C16"}, {"C17"}, {"C18"}
HIST = {"particles-not-written": P, "particles-elsewhere": P, "particles-not-read": P, "particles-differ": P,
        "targets-not-written": T, "targets-elsewhere": T, "targets-not-read": T, "targets-differ": T,
        "damage-unnoticed": D, "damaged-particles-not-read": D, "damaged-particles-differ": D,
        "write-denied": P | T, "lost-write-unnoticed": D, "lost-write-elsewhere": D,
        "damaged-targets-not-read": D, "damaged-targets-differ": D}


def run(ctx):
    big = ctx.thorough
    m = ctx.pool.submit(ctx.model, "MCFiles", "MCFilesBig.cfg" if big else None, min_states=10000, workers=3, timeout=3000)
    d = ctx.pool.submit(ctx.drive, "files", "histories")
    par = ctx.pool.submit(ctx.drive, "params", "inputs") if ctx.prop == "C18" else None
    d = d.result()
    ctx.clauses.update(ctx.stats(d))
    if any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        return
    ctx.validate(os.path.join(d, "histories.ndjson"), "TraceFiles", lambda c: HIST[c], expect_min=200,
                 label="histories of files", timeout=2500)
    if par:
        d = par.result()
        ctx.clauses.update(ctx.stats(d))
        ctx.validate(os.path.join(d, "inputs.ndjson"), "TraceParams", lambda c: D, expect_min=300,
                     label="damaged parameter files", timeout=1500)
    m.result()
    ctx.assumptions += ["files are damaged by whole lines or whole fields; names contain a field for the frame number"]


# ------------------------------------------------------------------- drivers
BIG = 2000000000


def unit(v, s):
    v = float(v)
    if v != v or abs(v * s) > BIG:
        return BIG
    return int(round(v * s))


class Store:
    """A directory of frame files and the operations on it, as they are recorded."""

    def __init__(self, rng, folder, nc):
        import numpy as np
        from openptv_python import tracking_frame_buf as tfb
        self.np, self.tfb, self.rng, self.nc = np, tfb, rng, nc
        os.makedirs(folder)
        self.dir = folder
        j = lambda n: os.path.join(folder, n)  # noqa: E731
        self.rt, self.lk, self.pr = j("rt_is"), j("ptv_is"), j(rng.choice(["added", "prio", "rt_is_added"]))
        pat = rng.choice(["%05d", "%d", "%04d", ".%06d_c", "", "#"])
        names = rng.choice([["cam1.", "cam2.", "cam3.", "cam4."], ["c", "c0_", "c1_", "cc"], ["a1_", "a11_", "b", "b.b"]])
        self.img = [j(n + pat) for n in names[:nc]]
        self.full = [j(n + (pat if "%" in pat else "%05d")) for n in names[:nc]]      # names without a field
        self.frames = [tfb.Frame(nc, rng.choice([1, 4, 16])) for _ in range(2)]
        self.ops = []
        self.state = self.look()

    def look(self):
        return {n: open(os.path.join(self.dir, n), "rb").read() for n in sorted(os.listdir(self.dir))}

    def path(self, n):
        k, c, f = n
        return self.full[c - 1] % f + "_targets" if k == "t" else "%s.%d" % ({"rt": self.rt, "lk": self.lk, "pr": self.pr}[k], f)

    def spec_name(self, base, known):
        for n in known:
            if os.path.basename(self.path(n)) == base:
                return '<<"%s", %d, %d>>' % n
        return base

    def done(self, op, known):
        new = self.look()
        ch = [n for n in set(new) | set(self.state) if new.get(n) != self.state.get(n)]
        op["changed"] = sorted(self.spec_name(n, known) for n in ch)
        self.state = new
        self.ops.append(op)


def histories(out):
    import shutil
    rng = out.rng
    n = 2500 if out.thorough else 260
    for it in range(n):
        nc = rng.choice([1, 2, 3, 4])
        d = os.path.join(out.dir, "h%d" % it)
        st = Store(rng, d, nc)
        frames = rng.sample([1, 2, 3, 9, 10, 11, 99, 100, 101, 999, 1000, 9999, 10000, 10001, 99999, 100000, 1234567], 3)
        known = [("t", c + 1, f) for c in range(nc) for f in frames] + [(k, 0, f) for k in ("rt", "lk", "pr") for f in frames]
        hurt = rng.random() < .5
        for _ in range(rng.randint(6, 24)):
            step(out, st, rng, frames, known, hurt)
        out.rec("histories", {"ops": st.ops})
        for o in st.ops:
            out.count("op." + o["op"])
        shutil.rmtree(d)


def targets(rng, st):
    n = rng.choice([0, 0, 1, 2, 3, 5, 9, 30])
    rows = []
    for i in range(n):
        dec = rng.choice([0, 1, 4, 4, 6])
        rows.append([rng.choice([i, i, rng.randint(0, 20479)]), round(rng.choice([0, 1, 10, 1000, 9999]) * rng.random(), dec),
                     round(rng.choice([0, 1, 10, 1000, 9999]) * rng.random(), dec),
                     rng.choice([1, 9, 99999, 123456]), rng.choice([1, 3, 99999, 100001]), rng.choice([1, 4, 77777, 100002]),
                     rng.choice([0, 1, 99999, 100000, 7654321]), rng.choice([-1, -1, 0, i, 12345, 100003, -999])])
    return rows


def t_obj(st, rows):
    return [st.tfb.Target(pnr=r[0], x=r[1], y=r[2], n=r[3], nx=r[4], ny=r[5], sumg=r[6], tnr=r[7]) for r in rows]


def t_rec(rows):
    return [[r[0], unit(r[1], 1e5), unit(r[2], 1e5)] + r[3:] for r in rows]


def t_got(ts):
    return [[int(t.pnr), unit(t.x, 1e5), unit(t.y, 1e5), int(t.n), int(t.nx), int(t.ny), int(t.sumg), int(t.tnr)] for t in ts]


def particles(rng):
    res = []
    for i in range(rng.choice([0, 0, 1, 2, 3, 5, 9, 30])):
        dec = rng.choice([0, 1, 3, 3, 6])
        res.append({"x": [round(rng.choice([-1, 1]) * rng.choice([0, .001, 1, 100, 20000]) * rng.random(), dec) for _ in range(3)],
                    "t": [rng.choice([-1, i, rng.randint(0, 20479)]) for _ in range(4)],
                    "prev": rng.choice([-1, -1, 0, i, rng.randint(0, 20479)]),
                    "next": rng.choice([-2, -2, 0, i, rng.randint(0, 20479)]),
                    "prio": rng.choice([0, 1, 2, 3, 4, 5])})
    return res


def p_rec(ps):
    return [dict(p, x=[unit(v, 1e4) for v in p["x"]]) for p in ps]


def p_obj(st, ps, spare):
    np, tfb = st.np, st.tfb
    path = []
    for p in ps:
        q = tfb.Pathinfo()
        q.x = np.array(p["x"], float)
        q.prev_frame, q.next_frame, q.prio = p["prev"], p["next"], p["prio"]
        path.append(q)
    path += [tfb.Pathinfo() for _ in range(spare)]
    cor = np.recarray((len(path),), dtype=tfb.Corres_dtype)
    cor.p = -1
    cor.nr = 0
    for i, p in enumerate(ps):
        cor[i].nr = i + 1
        cor[i].p[:] = p["t"]
    return cor, path


def p_got(cor, path, n):
    return [{"x": [unit(v, 1e4) for v in path[i].x], "t": [int(v) for v in cor[i].p], "prev": int(path[i].prev_frame),
             "next": int(path[i].next_frame), "prio": int(path[i].prio)} for i in range(n)]


def read_both(st, link, prio, f):
    cor, path = st.tfb.read_path_frame(st.rt, link, prio, f)
    assert len(cor) == len(path)
    return p_got(cor, path, len(path))


def step(out, st, rng, frames, known, hurt):
    tfb = st.tfb
    f, c = rng.choice(frames), rng.randint(1, st.nc)
    z = rng.choice(["wt", "wf", "fw", "fw", "rt", "rt", "rf", "rf", "fr", "fr", "lost"] + (["hurt"] * 3 if hurt else []))
    links, prio = rng.random() < .6, rng.random() < .5
    if st.ops and st.ops[-1]["op"] in ("cut", "short", "long", "remove") and rng.random() < .75:
        k, c, f = st.ops[-1]["n"]                       # read what was damaged
        z = "rt" if k == "t" and rng.random() < .6 else "fr" if k == "t" else rng.choice(["rf", "rf", "fr"])
        links, prio = links or k == "lk", prio or k == "pr"
        c = max(c, 1)
    if z == "wt":
        rows = targets(rng, st)
        extra = targets(rng, st)[:rng.choice([0, 0, 0, 2])]
        ok, err = out.call(tfb.write_targets, t_obj(st, rows + extra), len(rows), st.img[c - 1], f)
        st.done({"op": "wt", "said": bool(ok), "c": c, "f": f, "rows": t_rec(rows), "err": err}, known)
    elif z == "wf":
        ps = particles(rng)
        cor, path = p_obj(st, ps, rng.choice([0, 0, 3]))
        ok, err = out.call(tfb.write_path_frame, cor, path, len(ps), st.rt, st.lk, st.pr if prio else "", f)
        st.done({"op": "wf", "said": bool(ok), "f": f, "ps": p_rec(ps), "prio": prio, "err": err}, known)
    elif z == "fw":
        fr = rng.choice(st.frames + [tfb.Frame(st.nc, 3)])
        ps = particles(rng)
        ts = [targets(rng, st) for _ in range(st.nc)]
        fr.correspond, fr.path_info = p_obj(st, ps, rng.choice([0, 0, 3]))
        fr.num_parts = len(ps)
        fr.targets = [t_obj(st, t) for t in ts]
        fr.num_targets = [len(t) for t in ts]
        ok, err = out.call(fr.write, st.rt, st.lk, st.pr if prio else "", list(st.img), f)
        st.done({"op": "fw", "said": bool(ok), "f": f, "ps": p_rec(ps), "prio": prio, "ts": [t_rec(t) for t in ts], "err": err}, known)
    elif z == "lost":                                   # one of the places to write to does not exist
        gone = lambda n: os.path.join(os.path.dirname(n), "gone", os.path.basename(n))  # noqa: E731
        ps, ts = particles(rng), [targets(rng, st) for _ in range(st.nc)]
        cor, path = p_obj(st, ps, 0)
        k = rng.choice(["wt", "wf", "fw", "fw"])
        pl = [st.rt, st.lk, st.pr if prio else ""]
        img = list(st.img)
        if k == "wt":
            ok, err = out.call(tfb.write_targets, t_obj(st, ts[c - 1]), len(ts[c - 1]), gone(img[c - 1]), f)
        else:
            if k == "wf" or rng.random() < .4:
                pl[rng.choice([0, 1, 2] if prio else [0, 1])] = gone(st.rt)
            else:
                img[c - 1] = gone(img[c - 1])
            # nothing else is lost: what may have been written goes to names of its own
            own = lambda n: os.path.join(os.path.dirname(n), "own_" + os.path.basename(n)) if n and "gone" not in n else n  # noqa: E731
            pl, img = [own(n) for n in pl], [own(n) for n in img]
            if k == "wf":
                ok, err = out.call(tfb.write_path_frame, cor, path, len(ps), *pl, f)
            else:
                fr = tfb.Frame(st.nc, 3)
                fr.correspond, fr.path_info, fr.num_parts = cor, path, len(ps)
                fr.targets, fr.num_targets = [t_obj(st, t) for t in ts], [len(t) for t in ts]
                ok, err = out.call(fr.write, *pl, img, f)
        for n in os.listdir(st.dir):
            if n.startswith("own_"):
                os.remove(os.path.join(st.dir, n))
        st.done({"op": "lost", "kind": k, "said": bool(ok), "err": err}, known)
    elif z == "rt":
        r, err = out.call(tfb.read_targets, st.img[c - 1], f)
        st.done({"op": "rt", "c": c, "f": f, "got": {"err": bool(err), "rows": [] if err else t_got(r)}}, known)
    elif z == "rf":
        r, err = out.call(read_both, st, st.lk if links else "", st.pr if prio else "", f)
        st.done({"op": "rf", "f": f, "links": links, "prio": prio, "got": {"err": bool(err), "rows": r or []}}, known)
    elif z == "fr":
        fr = rng.choice(st.frames)
        ok, err = out.call(fr.read, st.rt, st.lk if links else "", st.pr if prio else "", list(st.img), f)
        bad = bool(err) or not ok
        st.done({"op": "fr", "f": f, "links": links, "prio": prio, "cs": st.nc,
                 "got": {"err": bad, "rows": [] if bad else p_got(fr.correspond, fr.path_info, fr.num_parts),
                         "ts": [] if bad else [t_got(fr.targets[k][:fr.num_targets[k]]) for k in range(st.nc)]}}, known)
    else:
        have = [n for n in known if os.path.exists(st.path(n))]
        if not have:
            return
        n = rng.choice(have)
        lines = open(st.path(n)).read().splitlines()
        how = rng.choice(["cut", "cut", "short", "long", "remove"])
        if len(lines) < 2 and how in ("short", "long"):
            how = "cut"
        if not lines:
            how = "remove"
        op = {"op": how, "n": list(n)}
        if how == "cut":
            op["k"] = rng.randrange(len(lines))
            lines = lines[:op["k"]]
        elif how == "remove":
            os.remove(st.path(n))
        else:
            op["i"] = rng.randint(2, len(lines))
            w = lines[op["i"] - 1].split()
            lines[op["i"] - 1] = " ".join(w[:-1] if how == "short" else w + ["0"])
        if how != "remove":
            with open(st.path(n), "w") as o:
                o.write("".join(q + "\n" for q in lines))
        st.done(op, known)
        st.ops[-1]["changed"] = []
