"""C35: from images to trajectories."""
import math
import os
from pathlib import Path

P = {"C35"}
CLAUSES = ["failed", "not-detected", "nothing-there", "not-matched", "false-match", "numbers", "misplaced",
           "imprecise", "not-kept", "lost", "wrong-trajectory", "not-mutual", "added"]


def run(ctx):
    ms = [ctx.pool.submit(ctx.model, m, k + ".cfg", min_states=1000, workers=2, timeout=3000)
          for m, k in (("MCPipeline", "MCPipeline"), ("MCPipeline", "MCPipelineBig" if ctx.thorough else "MCPipeline3"),
                       ("MCFollow", "MCFollowBig" if ctx.thorough else "MCFollow"))]
    n = 8
    dirs = [f.result() for f in [ctx.pool.submit(ctx.drive, "pipeline", "scenes", {"part": i, "parts": n}) for i in range(n)]]
    for d in dirs:
        for k, v in ctx.stats(d).items():
            ctx.clauses[k] = ctx.clauses.get(k, 0) + v
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        path = os.path.join(ctx.scratch, "scenes.ndjson")
        with open(path, "w") as o:
            for d in dirs:
                o.write(open(os.path.join(d, "scenes.ndjson")).read())
        ctx.validate(path, "TracePipeline", lambda c: P, expect_min=24, label="scenes", timeout=1500)
    for m in ms:
        m.result()
    ctx.assumptions += ["images are rendered by an independent ray tracer: round spots, more than 14 pixels apart in every image",
                        "scenes in which images of several particles could belong together (more than one such image, or none that a full "
                        "match takes away) or in which a particle comes within reach of another are not generated"]


W, H = 512, 384


class Scene:
    def __init__(self, rng):
        from groups.candidates import scene
        from vlib import optics
        self.o, self.rng = optics, rng
        self.nc = rng.choice([2, 3, 3, 4, 4])
        self.pix = rng.choice([(.02, .02), (.02, .018), (.017, .02)])
        self.cams, self.mm = scene(rng, self.nc, rng.choice(["air", "water", "water", "tilted"]))
        for c in self.cams:
            if rng.random() < .6:
                c["added"] = [rng.uniform(-3e-4, 3e-4), 0.0, 0.0, rng.choice([0.0, 5e-5]), 0.0, rng.uniform(.999, 1.001), rng.choice([0.0, 1e-3])]
        self.eps = rng.choice([.02, .04, .06])
        self.nf = rng.choice([2, 3, 4, 5])
        self.first = rng.choice([1, 2, 8, 9, 97, 998, 9998, 99998, 999999])
        self.last = self.first + self.nf - 1

    # ------------------------------------------------------------- geometry
    def pixel(self, c, X):
        x, y = self.o.project(self.cams[c], self.mm, X)
        cam = self.cams[c]
        x, y = self.o.distort(x + cam.get("xh", 0.0), y + cam.get("yh", 0.0), cam.get("added", self.o.NODIST))
        return x / self.pix[0] + W / 2.0, H / 2.0 - y / self.pix[1]

    def flat(self, c, u, v):
        cam = self.cams[c]
        x, y = self.o.undistort((u - W / 2.0) * self.pix[0], (H / 2.0 - v) * self.pix[1], cam.get("added", self.o.NODIST))
        return x - cam.get("xh", 0.0), y - cam.get("yh", 0.0)

    def off_line(self, c, X, d, Y):
        """How far the image of Y in d is from the line of all places that X might have, seen from c."""
        o = self.o
        v, r = o.trace(self.cams[c], self.mm, *o.project(self.cams[c], self.mm, X))
        pts = [o.project(self.cams[d], self.mm, o.at_z(v, r, z)) for z in range(-15, 16, 5)]
        q = o.project(self.cams[d], self.mm, Y)
        best = 1e9
        for a, b in zip(pts, pts[1:]):
            ex, ey = b[0] - a[0], b[1] - a[1]
            t = ((q[0] - a[0]) * ex + (q[1] - a[1]) * ey) / (ex * ex + ey * ey)
            t = max(0.0, min(1.0, t))
            best = min(best, math.hypot(a[0] + t * ex - q[0], a[1] + t * ey - q[1]))
        return best

    def make(self):
        """A scene, or None."""
        rng = self.rng
        n = rng.choice([1, 3, 5, 7, 8, 10] if self.nc > 2 else [1, 2, 3, 4, 5])
        self.vmax = rng.choice([.8, 1.2])
        tracks = []
        hide = rng.choice([0.0, 0.0, .06, .15])
        for _ in range(n):
            for _ in range(40):
                x = [rng.uniform(-14, 14), rng.uniform(-11, 11), rng.uniform(-7, 7)]
                v = [rng.choice([-1, 1]) * rng.uniform(.2, .75) * self.vmax for _ in range(3)]
                q = [[x[a] + v[a] * f + rng.gauss(0, .01) for a in range(3)] for f in range(self.nf)]
                if all(math.dist(y, z) > 4 * self.vmax for t in tracks for y in t for z in q):
                    tracks.append(q)
                    break
        if not tracks:
            return None
        self.frames = []
        n = len(tracks)
        life = [(0, self.nf - 1) if rng.random() < .75 else (rng.randrange(self.nf), rng.randrange(self.nf)) for _ in tracks]
        for f in range(self.nf):
            parts = []
            for i, q in enumerate(tracks):
                X = q[f]
                px, seen = [], []
                for c in range(self.nc):
                    u, v = self.pixel(c, X)
                    inside = 9 < u < W - 9 and 9 < v < H - 9
                    outside = u < -9 or u > W + 9 or v < -9 or v > H + 9
                    if not inside and not outside:
                        return None
                    px.append((u, v))
                    seen.append(inside and rng.random() >= hide and life[i][0] <= f <= life[i][1])
                parts.append({"x": X, "px": px, "seen": seen})
            for c in range(self.nc):
                for i in range(n):
                    for j in range(i):
                        if parts[i]["seen"][c] and parts[j]["seen"][c] and math.dist(parts[i]["px"][c], parts[j]["px"][c]) < 14:
                            return None
            edges = []
            for c in range(self.nc):
                for d in range(c + 1, self.nc):
                    for i in range(n):
                        for j in range(n):
                            if parts[i]["seen"][c] and parts[j]["seen"][d]:
                                if i == j or min(self.off_line(c, parts[i]["x"], d, parts[j]["x"]),
                                                 self.off_line(d, parts[j]["x"], c, parts[i]["x"])) < 2 * self.eps + .015:
                                    edges.append([c + 1, i + 1, d + 1, j + 1])
            if not clear(edges, parts):
                return None
            self.frames.append({"parts": parts, "edges": edges})
        return self

    def images(self):
        import numpy as np
        rng = self.rng
        self.thr = [rng.choice([12, 20, 30]) for _ in range(self.nc)]
        self.img_data = []
        yy, xx = np.mgrid[0:H, 0:W]
        for fr in self.frames:
            res = []
            for c in range(self.nc):
                seed = rng.randrange(1 << 30)
                g = np.random.default_rng(seed)
                im = g.integers(0, rng.choice([1, 2, 8]), size=(H, W)).astype(float)
                for p in fr["parts"]:
                    if not p["seen"][c]:
                        continue
                    u, v = p["px"][c]
                    s, peak = rng.uniform(1.1, 1.8), rng.uniform(130, 250)
                    x0, y0 = int(u), int(v)
                    sl = (slice(y0 - 8, y0 + 9), slice(x0 - 8, x0 + 9))
                    im[sl] += peak * np.exp(-((xx[sl] + .5 - u) ** 2 + (yy[sl] + .5 - v) ** 2) / (2 * s * s))
                dirt = []
                for _ in range(rng.choice([0, 0, 1, 3])):               # single bright pixels
                    a, b = rng.randrange(3, W - 3), rng.randrange(3, H - 3)
                    if all(math.dist((a, b), q) > 14 for q in dirt + [p["px"][c] for p in fr["parts"]]):
                        dirt.append((a, b))
                        im[b, a] = 250
                res.append(np.clip(np.round(im), 0, 255).astype(np.uint8))
            self.img_data.append(res)

    # ------------------------------------------------------------- objects and files
    def write(self, folder):
        """Cameras and parameters as the files that the program reads."""
        rng = self.rng
        for k in ("img", "res", "cal", "parameters"):
            os.makedirs(os.path.join(folder, k))
        self.img = [os.path.join(folder, "img", "cam%d.%%05d" % (c + 1)) for c in range(self.nc)]
        self.rt, self.ptv, self.prio = [os.path.join(folder, "res", k) for k in ("rt_is", "ptv_is", "added")]
        par = os.path.join(folder, "parameters", "%s.par")
        self.par = lambda k: Path(par % k)
        L = [str(self.nc)]
        for c in range(self.nc):
            L += ["img/c%d" % c, "cal/c%d.tif" % c]
        L += ["0", "0", "1", str(W), str(H), str(self.pix[0]), str(self.pix[1]), "0", "1", repr(self.mm["n2"]), repr(self.mm["n3"]),
              repr(self.mm["d"])]
        if self.mm["n1"] != 1.0:
            L[-4] = repr(self.mm["n1"])
        open(par % "ptv", "w").write("\n".join(L) + "\n")
        open(par % "criteria", "w").write("\n".join(str(v) for v in [-18, -12, 12, 18, -12, 12, .05, .05, .05, .05, .01, self.eps]) + "\n")
        self.lim = 2 * self.vmax
        open(par % "track", "w").write("\n".join(str(v) for v in [-self.lim, self.lim] * 3 + [120.0, .8 * self.vmax, rng.choice([0, 1])]) + "\n")
        open(par % "sequence", "w").write("\n".join(self.img + [str(self.first), str(self.last)]) + "\n")
        open(par % "targ_rec", "w").write("\n".join(str(v) for v in self.thr + [20] * (4 - self.nc) + [200, 3, 300, 2, 40, 2, 40, 60, 2]) + "\n")
        for c, cam in enumerate(self.cams):
            self.o.make_cal(cam).write(*self.cal(folder, c))

    def cal(self, folder, c):
        b = os.path.join(folder, "cal", "c%d.tif" % c)
        return Path(b + ".ori"), Path(b + ".addpar")


def clear(edges, parts):
    """As Unambiguous in Pipeline.tla."""
    e = {((a[0], a[1]), (a[2], a[3])) for a in edges}
    n = {i + 1: sum(p["seen"]) for i, p in enumerate(parts)}
    for a, b in e:
        if a[1] != b[1] and (n[a[1]] < 3 or n[b[1]] < 3):
            return False
        for x in {q for p, q in e if p == b}:
            if (a, x) in e and not a[1] == b[1] == x[1]:
                return False
    return True


def process(sc, folder):
    """What a user does: all stages one after another, through files."""
    import numpy as np
    from openptv_python.calibration import Calibration, read_calibration
    from openptv_python.correspondences import py_correspondences
    from openptv_python.orientation import point_positions
    from openptv_python.parameters import (convert_track_par_to_tuple, read_control_par, read_sequence_par, read_target_par, read_track_par,
                                           read_volume_par)
    from openptv_python.segmentation import target_recognition
    from openptv_python.track import track_forward_start, trackcorr_c_finish, trackcorr_c_loop
    from openptv_python.tracking_frame_buf import (Frame, Pathinfo, get_by_pnrs, match_coords, read_targets, write_path_frame, write_targets)
    from openptv_python.tracking_run import TrackingRun
    cpar = read_control_par(sc.par("ptv"))
    vpar = read_volume_par(sc.par("criteria"))
    tpar = read_track_par(sc.par("track"))
    spar = read_sequence_par(sc.par("sequence"), sc.nc)
    rpar = read_target_par(sc.par("targ_rec"))
    cals = [read_calibration(*sc.cal(folder, c)) for c in range(sc.nc)]
    found = []
    for f in range(sc.nf):
        nr = spar.first + f
        for c in range(sc.nc):
            t = target_recognition(sc.img_data[f][c], rpar, c, cpar)
            write_targets(t, len(t), spar.img_base_name[c], nr)
    for f in range(sc.nf):
        nr = spar.first + f
        targets = [read_targets(spar.img_base_name[c], nr) for c in range(sc.nc)]
        coords = [match_coords(t, cpar, k) for t, k in zip(targets, cals)]
        pos, ids, num = py_correspondences(targets, coords, cals, vpar, cpar)
        rows, place = [], []
        if ids:
            al = np.concatenate(ids, axis=1)
            flat = np.array([get_by_pnrs(coords[c], al[c]) for c in range(sc.nc)])
            xyz, rcm = point_positions(flat.transpose(1, 0, 2), cpar.mm, cals, vpar)
            rows = [[int(v) for v in al[:, i]] for i in range(al.shape[1])]
            place = [[float(v) for v in q] for q in xyz]
        fr = Frame(sc.nc, max(1, len(rows)))
        path = [Pathinfo(x=np.array(q)) for q in place]
        for i, r in enumerate(rows):
            fr.correspond[i].nr = i + 1
            fr.correspond[i].p = np.array(r + [-1] * (4 - sc.nc))
        write_path_frame(fr.correspond, path, len(rows), sc.rt, sc.ptv, "", nr)
        for c in range(sc.nc):
            write_targets(targets[c], len(targets[c]), spar.img_base_name[c], nr)
        found.append({"targets": [[(t.x, t.y, t.tnr) for t in ts] for ts in targets], "rows": rows, "place": place, "num": int(num)})
    run = TrackingRun(spar, convert_track_par_to_tuple(tpar), vpar, cpar, 4, 64, sc.rt, sc.ptv, sc.prio, cals, 1e-9)
    track_forward_start(run)
    for step in range(spar.first, spar.last):
        trackcorr_c_loop(run, step)
    trackcorr_c_finish(run, spar.last)
    kept = []
    for f in range(sc.nf):
        fr = Frame(sc.nc, 64)
        fr.read(sc.rt, sc.ptv, "", spar.img_base_name, spar.first + f)
        kept.append({"rows": [[int(v) for v in fr.correspond[i].p[:sc.nc]] for i in range(fr.num_parts)],
                     "place": [[float(v) for v in q.x] for q in fr.path_info],
                     "links": [[int(q.prev_frame), int(q.next_frame)] for q in fr.path_info],
                     "targets": [[(t.x, t.y, t.tnr) for t in ts[:k]] for ts, k in zip(fr.targets, fr.num_targets)]})
    return found, kept


def scenes(out):
    import random
    import shutil
    part = out.args["part"]
    rng = random.Random(out.seed * 104729 + part)
    n = 150 if out.thorough else 12
    BIG = 10 ** 8

    def mil(v, s=1000):
        return BIG if v != v or abs(v) * s > BIG else int(round(v * s))
    done = 0
    while done < n:
        sc = Scene(rng).make()
        if sc is None:
            out.count("scenes.rejected")
            continue
        done += 1
        sc.images()
        folder = os.path.join(out.dir, "s%d" % done)
        os.makedirs(folder)
        sc.write(folder)
        here = os.getcwd()
        os.chdir(folder)
        res, err = out.call(process, sc, folder, _desc={"scene": done, "part": part, "cams": sc.nc, "frames": [sc.first, sc.last]})
        os.chdir(here)
        rec = {"err": err, "cams": sc.nc, "frames": []}
        if not err:
            for f, fr in enumerate(sc.frames):
                a, b = res[0][f], res[1][f]
                ref = []
                for r in a["rows"]:
                    o = sc.o
                    try:
                        rays = [o.trace(sc.cams[c], sc.mm, *sc.flat(c, *a["targets"][c][k][:2])) for c, k in enumerate(r) if k >= 0]
                        ref.append([mil(v) for v in o.closest(rays)[0]] if len(rays) > 1 else [BIG] * 3)
                    except IndexError:
                        ref.append([BIG] * 3)
                rec["frames"].append({
                    "true": [{"x": [mil(v) for v in p["x"]], "px": [[mil(u), mil(v)] for u, v in p["px"]],
                              "seen": [c + 1 for c in range(sc.nc) if p["seen"][c]]} for p in fr["parts"]],
                    "edges": fr["edges"],
                    "targets": [[[mil(u), mil(v), k] for u, v, k in t] for t in a["targets"]],
                    "rows": a["rows"], "place": [[mil(v) for v in q] for q in a["place"]], "ref": ref, "num": a["num"],
                    "kept": {"rows": b["rows"], "place": [[mil(v) for v in q] for q in b["place"]], "links": b["links"],
                             "targets": [[[mil(u), mil(v), k] for u, v, k in t] for t in b["targets"]]}})
            out.count("pairs.harmless", sum(e[1] != e[3] for f in sc.frames for e in f["edges"]))
            out.count("particles", sum(len(f["parts"]) for f in sc.frames))
            out.count("links", sum(l[1] >= 0 for b in res[1] for l in b["links"]))
        out.rec("scenes", rec)
        shutil.rmtree(folder, ignore_errors=True)
