"""C29: the frame buffer as a window over a sequence and as a queue."""
import os


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCRing", "MCRingBig.cfg" if ctx.thorough else None, min_states=40000, workers=4, timeout=3000)
    d = ctx.drive("ring", "histories")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "ring.ndjson"), "TraceRing", lambda c: {"C29"}, expect_min=300,
                     label="histories of a frame buffer", timeout=2500)
    m.result()
    ctx.assumptions += ["contents of frames have no more digits than the files keep"]


# ------------------------------------------------------------------- drivers
def histories(out):
    from collections import deque
    import numpy as np
    from openptv_python.tracking_frame_buf import Frame, FrameBuf, FrameBufBase, Pathinfo, Target, Corres_dtype
    rng = out.rng

    def particles(n, ncam, nt):
        return [{"x": [rng.randint(-400, 400) / 8 for _ in range(3)],
                 "p": [rng.choice([-1, rng.randrange(nt[c])]) if c < ncam and nt[c] else -1 for c in range(4)],
                 "prev": rng.choice([-1, rng.randint(0, 9)]), "next": rng.choice([-2, rng.randint(0, 9)]),
                 "prio": rng.choice([0, 1, 2, 3, 4])} for _ in range(n)]

    def dots(n):
        return [{"pnr": i, "x": rng.randint(0, 4000) / 4, "y": rng.randint(0, 4000) / 4, "n": rng.randint(1, 99), "nx": rng.randint(1, 9),
                 "ny": rng.randint(1, 9), "sumg": rng.randint(1, 9999), "tnr": rng.choice([-1, rng.randint(0, 9)])} for i in range(n)]

    def content(ncam):
        t = [dots(rng.choice([0, 1, 3])) for _ in range(ncam)]
        return {"parts": particles(rng.choice([0, 1, 2, 4]), ncam, [len(q) for q in t]), "targets": t}

    def sig_parts(ps):
        return ";".join("%.3f %.3f %.3f " % tuple(p["x"]) + " ".join(map(str, p["p"])) for p in ps)

    def sig_links(ps, prio=True):
        return ";".join(f"{p['prev']} {p['next']} {p['prio']}" for p in ps)

    def sig_targets(ts):
        return "|".join(";".join("%d %.4f %.4f %d %d %d %d %d" % tuple(t[k] for k in ("pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr"))
                                 for t in q) for q in ts)

    def plain(ps):
        return sig_links([{"prev": -1, "next": -2, "prio": 4}] * len(ps))

    def shown(f):
        """What a frame holds."""
        try:
            ps = [{"x": [float(v) for v in f.path_info[i].x], "p": [int(v) for v in f.correspond[i].p],
                   "prev": int(f.path_info[i].prev_frame), "next": int(f.path_info[i].next_frame), "prio": int(f.path_info[i].prio)}
                  for i in range(f.num_parts)]
            ts = [[{k: getattr(t, k) for k in ("pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr")} for t in f.targets[c][:f.num_targets[c]]]
                  for c in range(f.num_cams)]
            return [sig_parts(ps), sig_links(ps), sig_targets(ts)]
        except Exception as e:  # noqa: BLE001
            return ["broken: " + type(e).__name__, "", ""]

    def fill(f, c):
        n = len(c["parts"])
        f.path_info = [Pathinfo(x=np.array(p["x"]), prev_frame=p["prev"], next_frame=p["next"], prio=p["prio"]) for p in c["parts"]]
        f.correspond = np.recarray((n,), dtype=Corres_dtype)
        for i, p in enumerate(c["parts"]):
            f.correspond[i].nr = i + 1
            f.correspond[i].p = p["p"]
        f.num_parts = n
        f.targets = [[Target(**t) for t in q] for q in c["targets"]]
        f.num_targets = [len(q) for q in c["targets"]]

    def store(base, num, c):
        """Files of a number, written without the code under test."""
        ps = c["parts"]
        with open(f"{base}rt.{num}", "w") as o:
            o.write(f"{len(ps)}\n" + "".join("%d %.3f %.3f %.3f %d %d %d %d\n" % (i + 1, *p["x"], *p["p"]) for i, p in enumerate(ps)))
        with open(f"{base}ptv.{num}", "w") as o:
            o.write(f"{len(ps)}\n" + "".join("%d %d %.3f %.3f %.3f\n" % (p["prev"], p["next"], *p["x"]) for p in ps))
        with open(f"{base}added.{num}", "w") as o:
            o.write(f"{len(ps)}\n" + "".join("%d %d %.3f %.3f %.3f %d\n" % (p["prev"], p["next"], *p["x"], p["prio"]) for p in ps))
        for i, q in enumerate(c["targets"]):
            with open(f"{base}cam{i}.{num:04d}_targets", "w") as o:
                o.write(f"{len(q)}\n" + "".join("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % (
                    t["pnr"], t["x"], t["y"], t["n"], t["nx"], t["ny"], t["sumg"], t["tnr"]) for t in q))

    def stored(base, num, ncam):
        """Content of the files of a number, read without the code under test."""
        try:
            rt = [q.split() for q in open(f"{base}rt.{num}").read().splitlines()]
            pv = [q.split() for q in open(f"{base}ptv.{num}").read().splitlines()]
            ad = [q.split() for q in open(f"{base}added.{num}").read().splitlines()]
            ps = [{"x": [float(v) for v in a[1:4]], "p": [int(v) for v in a[4:8]], "prev": int(b[0]), "next": int(b[1]), "prio": int(c[5])}
                  for a, b, c in zip(rt[1:], pv[1:], ad[1:])]
            assert all(len(z) == 1 + len(ps) and int(z[0][0]) == len(ps) for z in (rt, pv, ad))
            ts = []
            for i in range(ncam):
                q = [z.split() for z in open(f"{base}cam{i}.{num:04d}_targets").read().splitlines()]
                k = int(q[0][0])
                assert k <= len(q) - 1
                ts.append([dict(zip(("pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr"), [int(z[0]), float(z[1]), float(z[2])] + [int(v) for v in z[3:]]))
                           for z in q[1:k + 1]])
            return {"parts": sig_parts(ps), "links": sig_links(ps), "plain": plain(ps), "targets": sig_targets(ts)}
        except Exception as e:  # noqa: BLE001
            return {"parts": "broken: " + type(e).__name__ + str(e)[:80], "links": "", "plain": "", "targets": ""}

    for it in range(1500 if out.thorough else 220):
        ncam = rng.choice([1, 2, 4])
        n = rng.choice([1, 2, 3, 4, 4, 4, 5, 7])
        base = os.path.join(out.dir, f"h{it}_")
        nums = rng.sample([1, 2, 3, 9, 10, 99, 100, 1000, 9999], rng.randint(1, 4))
        for k in nums:
            store(base, k, content(ncam))
        fb, err = out.call(FrameBuf, n, ncam, 12, base + "rt", base + "ptv", base + "added", [f"{base}cam{i}.%04d" for i in range(ncam)])
        if err:
            out.rec("ring", {"t": "window", "ops": [{"op": "new", "err": err, "win": [], "disk": []}]})
            continue
        frames = list(fb.buf)

        def window():
            return [[next((i + 1 for i, g in enumerate(frames) if g is f), 0)] + shown(f) for f in fb.buf]

        def disk():
            return [dict(num=k, **stored(base, k, ncam)) for k in nums]
        ops = [{"op": "new", "err": "", "win": window(), "disk": disk()}]
        for s in range(rng.randint(4, 22)):
            kind = rng.choice(["next", "next", "next", "prev", "prev", "read", "read", "write", "fill", "turn", "missing"])
            op = {"op": kind, "err": ""}
            if kind == "next":
                _, op["err"] = out.call(fb.fb_next)
            elif kind == "prev":
                _, op["err"] = out.call(fb.fb_prev)
            elif kind == "turn":
                for _ in range(n):
                    _, op["err"] = out.call(fb.fb_next)
            elif kind == "read":
                op["num"], op["links"] = rng.choice(nums), rng.random() < .5
                fn = rng.choice([fb.read_frame_at_end, fb.disk_read_frame_at_end])
                r, op["err"] = out.call(fn, op["num"], op["links"])
                if not op["err"] and fn == fb.disk_read_frame_at_end and not r:
                    op["err"] = "refused"
            elif kind == "missing":
                fn = rng.choice([fb.read_frame_at_end, fb.disk_read_frame_at_end])
                out.call(fn, 77, rng.random() < .5)
            elif kind == "write":
                op["num"] = rng.choice(nums)
                r, op["err"] = out.call(fb.write_frame_from_start, op["num"])
                if not op["err"] and not r:
                    op["err"] = "refused"
            elif kind == "fill":
                op["at"] = rng.randint(1, n)
                fill(fb.buf[op["at"] - 1], content(ncam))
                op["c"] = shown(fb.buf[op["at"] - 1])
            op["win"], op["disk"] = window(), disk()
            ops.append(op)
            out.count("window." + kind)
        out.rec("ring", {"t": "window", "ops": ops})
        for f in os.listdir(out.dir):
            if f.startswith(f"h{it}_"):
                os.unlink(os.path.join(out.dir, f))
    for it in range(1200 if out.thorough else 250):
        n = rng.choice([1, 2, 3, 4, 5, 8])
        if rng.random() < .5:
            ring = FrameBufBase(deque([None] * n, maxlen=n), buf_len=n, num_cams=1)
            names, start = {}, 0
        else:
            ring = FrameBuf(n, 1, 2, "rt", "ptv", "added", ["cam"])
            names = {id(f): i + 1 for i, f in enumerate(ring.buf)}
            start = n
        keep = list(ring.buf)
        ops, nxt = [], n
        bias = rng.choice([.3, .5, .7])
        for s in range(rng.randint(3, 40)):
            if rng.random() < bias:
                nxt += 1
                item = Frame(1, 1)
                keep.append(item)
                names[id(item)] = nxt
                _, err = out.call(ring.push, item)
                ops.append({"op": "push", "x": nxt, "err": err})
            else:
                r, err = out.call(ring.pop)
                ops.append({"op": "pop", "got": names.get(id(r), -1) if r is not None else 0, "err": err})
        out.rec("ring", {"t": "queue", "n": n, "start": start, "ops": ops})
        out.count("queue")
