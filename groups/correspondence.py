"""C05, C06, C07: matches between cameras."""
import math
import os

from groups.candidates import crd_of

A, B, C = {"C05"}, {"C06"}, {"C07"}
PROPS = {"unsupported": A | C, "rated-too-low": A, "pair-with-several-candidates": A, "rating": A,
         "target-in-two-matches": B, "smaller-than-wanted": B, "order": B, "possible-match-left-out": B,
         "usage-marks": B, "proposed-twice": B, "total": C, "blocks": C, "match-in-wrong-block": C,
         "no-such-target": C, "position": C, "target-number": C, "result-differs-from-matches": C,
         "arguments-changed": C, "failed": A | B | C}


def run(ctx):
    ms = [ctx.pool.submit(ctx.model, "MCCorrespondence", c, min_states=5000, workers=3, timeout=2500)
          for c in (["MCCorrespondence.cfg", "MCCorrespondenceBig3.cfg", "MCCorrespondence4.cfg",
                     "MCCorrespondenceBig4.cfg"] if ctx.thorough
                    else ["MCCorrespondence.cfg", "MCCorrespondence4.cfg"])]
    ds = [(ctx.pool.submit(ctx.drive, "correspondence", f), f) for f in ("full", "parts")]
    for fu, f in ds:
        d = fu.result()
        for k, v in ctx.stats(d).items():
            ctx.clauses[k] = v
        p = os.path.join(d, f + ".ndjson")
        if os.path.exists(p) and not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
            ctx.validate(p, "TraceCorrespondence", lambda c: PROPS[c], expect_min=40, label="matching." + f,
                         timeout=1500)
    for f in ms:
        f.result()
    ctx.assumptions += ["up to 14 targets per camera in whole runs",
                        "ratings closer than 0.2 % count as equal in whole runs (exact in stage-wise runs)"]


# ------------------------------------------------------------------- drivers
def full(out):
    import numpy as np
    from groups.candidates import scene
    from openptv_python.correspondences import (correspondences, match_pairs, py_correspondences,
                                                safely_allocate_adjacency_lists)
    from openptv_python.parameters import ControlPar, VolumePar
    from openptv_python.tracking_frame_buf import Frame, Target
    from vlib import optics
    rng = out.rng
    n = 900 if out.thorough else 130
    for it in range(n):
        ncam = rng.choice([1, 2, 3, 3, 4, 4, 4, 4])
        cams, mm = scene(rng, ncam, rng.choice(["air", "air", "water"]))
        npts = rng.choice([0, 1, 2, 4, 6, 9, 12])
        spread = rng.choice([2.0, 5.0, 25.0])
        P = [[rng.uniform(-spread, spread) for _ in range(3)] for _ in range(npts)]
        seen = rng.choice([1.0, .85, .6])
        same = rng.random() < .5
        lists = []
        for c in cams:
            t = []
            for k, X in enumerate(P):
                if rng.random() < seen:
                    x, y = optics.project(c, mm, X)
                    s = rng.choice([.002, .02])
                    t.append([x + rng.gauss(0, s), y + rng.gauss(0, s)])
            if t:
                for _ in range(rng.choice([0, 0, 1, 3])):
                    b = rng.choice(t)
                    t.append([b[0] + rng.uniform(-.5, .5), b[1] + rng.uniform(-.5, .5)])
            if rng.random() < .05:
                t = []
            rng.shuffle(t)
            lists.append([q + ([10, 4, 4, 900] if same else
                               [rng.randint(8, 14), rng.randint(3, 4), rng.randint(3, 4), rng.randint(500, 1500)])
                          for q in t])
        img, flat, pn = [], [], []
        for t in lists:
            m = len(t)
            tg = [Target(pnr=i, x=rng.uniform(0, 1000), y=rng.uniform(0, 1000), n=t[i][2], nx=t[i][3], ny=t[i][4],
                         sumg=t[i][5], tnr=-1) for i in range(m)]
            img.append(tg)
            order = sorted(range(m), key=lambda i: t[i][0])
            flat.append(crd_of([t[i][0] for i in order], [t[i][1] for i in order], order))
            pn.append(order)
        eps = rng.choice([.02, .05, .1, .3])
        corrmin = rng.choice([1.0, 33.0, 1e5])
        zr = rng.choice([8.0, 30.0])
        vpar = VolumePar(x_lay=[-50., 50.], z_min_lay=[-zr, -zr], z_max_lay=[zr, zr], cn=.3, cnx=.3, cny=.3, csumg=.1,
                         eps0=eps, corrmin=corrmin)
        flag = rng.choice([0, 0, 0, 1])
        cpar = ControlPar(num_cams=ncam, all_cam_flag=flag)
        cpar.set_image_size((1600, 1400))
        cpar.set_pixel_size((.01, .01))
        cpar.mm = optics.make_mm(mm)
        cals = [optics.make_cal(c) for c in cams]

        def frame():
            f = Frame(ncam, 4)
            for c in range(ncam):
                f.num_targets[c] = len(img[c])
                f.targets[c] = img[c]
            return f

        def tcopy():
            return [[Target(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in tg] for tg in img]

        desc = {"cams": ncam, "counts": [len(t) for t in lists], "eps": eps, "flag": flag}
        rec = {"kind": "full", "err": ""}
        fl0 = [f.copy() for f in flat]
        if ncam == 1:
            r, err = out.call(py_correspondences, img, flat, cals, vpar, cpar, _desc=desc)
            rec = {"kind": "single", "err": err, "pnr": pn[0], "ids": [], "posok": [], "tnr": [], "total": -1}
            if not err:
                pos, ids, tot = r
                rec["total"] = int(tot)
                rec["ids"] = [int(i) for i in ids[0][0]]
                by = {t.pnr: t for t in img[0]}
                rec["posok"] = [1 if i in by and pos[0][0][k][0] == by[i].x and pos[0][0][k][1] == by[i].y else -1
                                for k, i in enumerate(rec["ids"])]
                rec["tnr"] = [[t.pnr, int(t.tnr)] for t in img[0]]
            out.rec("full", rec)
            out.count("full.cams.1")
            continue
        cl = safely_allocate_adjacency_lists(ncam, [len(t) for t in lists])
        _, err = out.call(match_pairs, cl, flat, frame(), vpar, cpar, cals, _desc=desc)
        if err:
            out.rec("full", {"kind": "full", "err": err})
            continue
        L = []
        for a in range(ncam):
            La = []
            for b in range(ncam):
                Lb = []
                for i in range(len(lists[a])):
                    e = []
                    if a < b:
                        row = cl[a][b][i]
                        e = [[int(row.p2[k]) + 1, int(round(float(row.corr[k]))),
                              int(round(float(row.dist[k]) * 1e8))] for k in range(int(row.n))]
                    Lb.append(e)
                La.append(Lb)
            L.append(La)
        s = {"nc": ncam, "cnt": [len(t) for t in lists], "flag": flag, "L": L, "acc": [int(corrmin), 100000000],
             "tol": 500}
        # the match list itself
        save = img
        img = tcopy()
        cnts = [0, 0, 0, 0]
        con, err = out.call(correspondences, frame(), flat, vpar, cpar, cals, cnts, _desc=desc)
        img = save
        direct = [] if err else [[int(con[m].p[c]) + 1 if int(con[m].p[c]) >= 0 else 0 for c in range(ncam)]
                                 for m in range(int(cnts[3]))]
        r, err2 = out.call(py_correspondences, img, flat, cals, vpar, cpar, _desc=desc)
        err = err or err2
        rec = {"kind": "full", "err": err, "s": s, "pnr": pn, "direct": direct}
        if not err:
            pos, ids, tot = r
            rec["total"] = int(tot)
            rec["blocks"] = [int(len(b[0])) for b in ids]
            rec["ids"] = [[int(i) for b in ids for i in b[c]] for c in range(ncam)]
            po = []
            for c in range(ncam):
                by = {t.pnr: t for t in img[c]}
                l = []
                for bi, b in enumerate(ids):
                    for k, i in enumerate(b[c]):
                        p = pos[bi][c][k]
                        l.append(1 if int(i) in by and p[0] == by[int(i)].x and p[1] == by[int(i)].y else
                                 0 if p[0] == -999 and p[1] == -999 else -1)
                po.append(l)
            rec["posok"] = po
            rec["tnr"] = [[[t.pnr, int(t.tnr)] for t in img[c]] for c in range(ncam)]
            rec["unchanged"] = all((f == g).all() for f, g in zip(fl0, flat))
            for b, k in enumerate(rec["blocks"]):
                out.count(f"full.matches.size{ncam - b}", k)
            amb = sum(1 for a in range(ncam) for b in range(a + 1, ncam) for e in L[a][b] if len(e) > 1)
            out.count("full.targets-with-several-candidates", amb)
        out.rec("full", rec)
        out.count(f"full.cams.{ncam}")


def parts(out):
    """The stages by themselves, on arbitrary candidate lists with exact numbers."""
    import numpy as np
    from openptv_python.correspondences import (consistent_pair_matching, four_camera_matching,
                                                safely_allocate_adjacency_lists, take_best_candidates,
                                                three_camera_matching)
    from openptv_python.tracking_frame_buf import n_tupel_dtype
    rng = out.rng
    n = 3000 if out.thorough else 400
    for it in range(n):
        nc = rng.choice([2, 3, 4, 4])
        cnt = [rng.randint(1, 5) if rng.random() < .93 else 0 for _ in range(nc)]
        if max(cnt) == 0:
            cnt[0] = 1
        dens = rng.choice([.2, .4, .7, 1.0])
        ties = rng.random() < .3
        cl = safely_allocate_adjacency_lists(nc, cnt)
        L = [[[[] for _ in range(cnt[a])] for b in range(nc)] for a in range(nc)]
        for a in range(nc):
            for b in range(a + 1, nc):
                for i in range(cnt[a]):
                    js = [j for j in range(cnt[b]) if rng.random() < dens]
                    if rng.random() < .3:
                        rng.shuffle(js)
                    cl[a][b][i].p1 = i
                    cl[a][b][i].n = len(js)
                    # what lies beyond the first n entries must not matter
                    for k in range(40):
                        cl[a][b][i].p2[k] = rng.randint(0, 4)
                        cl[a][b][i].corr[k] = 7.0
                        cl[a][b][i].dist[k] = 1.0
                    for k, j in enumerate(js):
                        c, d = (4, 1) if ties else (rng.randint(1, 9), rng.randint(1, 4))
                        cl[a][b][i].p2[k] = j
                        cl[a][b][i].corr[k] = float(c)
                        cl[a][b][i].dist[k] = float(d)
                        L[a][b][i].append([j + 1, c, d])
        acc = rng.choice([0, 1, 2, 4])
        s = {"nc": nc, "cnt": cnt, "flag": 0, "L": L, "acc": [acc, 1], "tol": 0}
        used = np.zeros((nc, 10000), dtype=np.int32)
        if rng.random() < .4:
            for c in range(nc):
                for k in range(cnt[c]):
                    used[c, k] = rng.random() < .25
        M = 4000
        ms = []

        def unp(row):
            return [int(row.p[c]) + 1 if int(row.p[c]) >= 0 else 0 for c in range(nc)]

        for size in range(nc, 1, -1):
            scr = np.recarray((M,), dtype=n_tupel_dtype)
            scr.p = 0
            scr.corr = 0.0
            ub = [[int(used[c, k]) for k in range(cnt[c])] for c in range(nc)]
            if size == 4:
                if any(map(any, ub)):
                    continue
                m, err = out.call(four_camera_matching, cl, cnt[0], float(acc), scr, M, _desc={"L": L})
            elif size == 3:
                m, err = out.call(three_camera_matching, cl, nc, cnt, float(acc), scr, M, used, _desc={"L": L})
            else:
                m, err = out.call(consistent_pair_matching, cl, nc, cnt, float(acc), scr, M, used, _desc={"L": L})
            rec = {"kind": "stage", "err": err, "s": s, "size": size, "used": ub, "ms": [], "corr": []}
            if not err:
                rec["ms"] = [unp(scr[k]) for k in range(int(m))]
                rec["corr"] = [int(round(float(scr[k].corr) * 1000)) for k in range(int(m))]
            out.rec("parts", rec)
            out.count(f"stage.size{size}")
            out.count("stage.proposals", len(rec["ms"]))
            if err:
                break
            src = [[q, c] for q, c in zip(rec["ms"], rec["corr"])]
            dst = np.recarray((M,), dtype=n_tupel_dtype)
            t, err = out.call(take_best_candidates, scr[:int(m)].view(np.recarray), dst, nc, used, _desc={"src": src})
            r2 = {"kind": "take", "err": err, "src": src, "used": ub, "ms": [], "count": -1, "after": ub}
            if not err:
                r2["count"] = int(t)
                r2["ms"] = [unp(dst[k]) for k in range(int(t))]
                r2["after"] = [[int(used[c, k]) for k in range(cnt[c])] for c in range(nc)]
            out.rec("parts", r2)
            out.count("take")
            if err:
                break
