"""C01, C02: target detection."""
import os

PROPS = {"spot-missing": {"C02"}, "spot-at-limit-missing": {"C01", "C02"}, "target-is-no-spot": {"C01", "C02"}, "spot-counted-twice": {"C02"},
         "scan-order": {"C02"}, "numbering": {"C02"}, "already-corresponding": {"C02"},
         "image-changed": {"C02"}, "repetition-differs": {"C02"},
         "failed": {"C01", "C02"}, "window-larger-than-image-accepted": {"C02"}}


def run(ctx):
    m = [ctx.pool.submit(ctx.model, "MCSegmentation", "MCSegmentationBig.cfg" if ctx.thorough else None,
                         min_states=1000, workers=4, timeout=1500)]
    d = ctx.drive("segmentation", "detect")
    p = os.path.join(d, "detect.ndjson")
    if os.path.exists(p) and not ctx.fails:
        ctx.validate(p, "TraceSegmentation", lambda c: PROPS[c], expect_min=50, timeout=1500)
    ctx.clauses = ctx.stats(d)
    for f in m:
        f.result()
    ctx.assumptions += ["spots of up to 12,000 pixels and up to 1,300 spots in images of up to 110 x 110 or 8 x 1,400 pixels, most of them up to 40 x 40",
                        "centres compared to 0.002 pixel"]


# ------------------------------------------------------------------- driver
def detect(out):
    import numpy as np
    from openptv_python.parameters import ControlPar, TargetPar
    from openptv_python.segmentation import target_recognition

    rng = out.rng

    import math

    def image(kind, w, h):
        im = np.zeros((h, w), dtype=np.uint8)
        if kind == "noise":
            lv = rng.choice([[0, 0, 5, 9], [0, 10, 11, 12], [0, 0, 0, 200, 255], [3, 4, 5, 6, 7, 8]])
            for y in range(h):
                for x in range(w):
                    im[y, x] = rng.choice(lv)
        elif kind == "sparse":
            for _ in range(rng.randint(1, max(2, w * h // 12))):
                im[rng.randrange(h), rng.randrange(w)] = rng.choice([1, 20, 50, 51, 200, 255])
        elif kind == "ridge":
            y, x, v = rng.randrange(h), rng.randrange(w), rng.randint(20, 120)
            for _ in range(rng.randint(3, 40)):
                if 0 <= y < h and 0 <= x < w:
                    im[y, x] = max(im[y, x], v)
                dy, dx = rng.choice([(0, 1), (1, 0), (0, -1), (-1, 0)])
                y, x = y + dy, x + dx
                v = min(255, max(1, v + rng.choice([-12, -3, -1, 0, 0, 1, 3, 12])))
        elif kind == "touch":
            for _ in range(rng.randint(2, 5)):
                cy, cx, s, a = rng.uniform(0, h), rng.uniform(0, w), rng.uniform(0.7, 2.0), rng.randint(40, 255)
                for y in range(h):
                    for x in range(w):
                        v = a * np.exp(-((y - cy) ** 2 + (x - cx) ** 2) / (2 * s * s))
                        im[y, x] = max(im[y, x], int(v))
        elif kind == "plateau":
            for _ in range(rng.randint(1, 4)):
                y0, x0 = rng.randrange(h), rng.randrange(w)
                im[y0:y0 + rng.randint(1, 6), x0:x0 + rng.randint(1, 6)] = rng.choice([9, 10, 11, 60, 255])
        elif kind == "large":
            cy, cx = rng.uniform(.3, .7) * h, rng.uniform(.3, .7) * w
            shape, top, slope = rng.choice([0, 0, 1, 2, 3]), rng.randint(40, 60), rng.choice([.2, .4, .6])
            for y in range(h):
                for x in range(w):
                    dy, dx = abs(y - cy), abs(x - cx)
                    d = [dx + dy, max(dx, dy), math.hypot(dx, dy), abs(dx - dy)][shape]
                    im[y, x] = max(0, int(top - slope * d))
            for _ in range(rng.choice([0, 0, 3, 30])):
                im[rng.randrange(h), rng.randrange(w)] = rng.choice([0, 5, 60])
        elif kind == "strip":                                        # long pictures, places beyond a thousand
            for _ in range(rng.randint(10, 60)):
                y, x = rng.randrange(h), rng.randrange(w)
                if rng.random() < .4:                                # at the far end
                    y, x = h - 1 - (h - 1 - y) // 10, w - 1 - (w - 1 - x) // 10
                im[y:y + rng.randint(1, 4), x:x + rng.randint(1, 5)] = rng.choice([9, 30, 120, 255])
        elif kind == "field":                                        # more than a thousand spots
            for y in range(1, h - 1, 3):
                for x in range(1, w - 1, 3):
                    if rng.random() < .95:
                        im[y, x] = rng.randint(20, 255)
                        if rng.random() < .3:
                            im[y, x + 1] = rng.randint(5, 255)
        else:  # all small values around the threshold, every pixel relevant
            for y in range(h):
                for x in range(w):
                    im[y, x] = rng.choice([9, 10, 10, 11, 12, 13, 15])
        return im

    def pack(ts):
        return [[int(t.n), int(t.nx), int(t.ny), int(t.sumg), int(round(t.x * 1000)), int(round(t.y * 1000)),
                 int(t.pnr), int(t.tnr)] for t in ts]

    n = 6000 if out.thorough else 900
    big = 60 if out.thorough else 14
    wide = [0, 20000, 0, 2000, 0, 2000, 0]
    made = larges = wides = 0
    while made < n:
        kind = rng.choice(["noise", "sparse", "ridge", "touch", "plateau", "level"])
        small = rng.random() < 0.75
        w, h = (rng.randint(3, 12), rng.randint(3, 12)) if small else (rng.randint(12, 40), rng.randint(12, 40))
        if kind == "noise" and not small:
            kind = "touch"
        if made >= larges * (n // big):                              # spots of thousands of pixels, long waiting lists
            kind = "large"
            larges += 1
            w, h = rng.randint(60, 110), rng.randint(60, 110)
        elif made >= wides * (n // big):
            kind = "strip" if wides % 3 else "field"
            wides += 1
            w, h = (rng.randint(300, 1400), rng.randint(5, 8)) if kind == "strip" else (rng.randint(102, 112), rng.randint(100, 112))
            if rng.random() < .5:
                w, h = h, w
        im = image(kind, w, h)
        thr = [rng.choice([0, 1, 4, 9, 10, 11, 19, 49, 50, 100, 200]) for _ in range(4)]
        cam = rng.randrange(4)
        if kind == "large":
            thr = [rng.choice([0, 1, 9, 11]) for _ in range(4)]
        disco = rng.choice([0, 0, 1, 2, 3, 5, 12, 30, 100, 255])
        win = [0, w, 0, h]
        sub = rng.random()
        if sub < 0.45 and kind not in ("large", "field"):
            x0, x1 = sorted((rng.randint(-2, w), rng.randint(0, w)))
            y0, y1 = sorted((rng.randint(-2, h), rng.randint(0, h)))
            win = [x0, x1, y0, y1]
        if rng.random() < 0.03:
            win[rng.choice([1, 3])] += rng.randint(1, 5)
        lims = [list(wide)]
        cp = ControlPar(num_cams=4)
        cp.set_image_size((w, h))
        if rng.random() < 0.06:  # sensor smaller than the picture
            cp.set_image_size((max(3, w - 2), max(3, h - 1)))

        def go(lim):
            tp = TargetPar(gvthresh=list(thr), discont=disco, nnmin=lim[0], nnmax=lim[1], nxmin=lim[2],
                           nxmax=lim[3], nymin=lim[4], nymax=lim[5], sumg_min=lim[6])
            a = im.copy()
            full = win == [0, cp.imx, 0, cp.imy]
            ar = (a, tp, cam, cp) if full else (a, tp, cam, cp, (win[0], win[1]), (win[2], win[3]))
            r, err = out.call(target_recognition, *ar, _desc={"lim": lim, "thr": thr, "disco": disco})
            rec = {"w": w, "h": h, "imx": cp.imx, "imy": cp.imy, "img": [int(v) for v in im.ravel()], "thr": thr,
                   "cam": cam, "disco": disco, "win": win, "lim": lim, "err": err.split(":")[0],
                   "targets": [], "again": [], "unchanged": bool((a == im).all())}
            if not err:
                r2, err2 = out.call(target_recognition, *ar)
                rec["targets"] = pack(r)
                rec["again"] = pack(r2) if not err2 else [[-9]]
                rec["unchanged"] = bool((a == im).all()) and tp.gvthresh == thr
            out.rec("detect", rec)
            return rec

        r0 = go(lims[0])
        made += 1
        out.count("kind." + kind)
        out.count("targets", len(r0["targets"]))
        # limits placed exactly at, just below and just above what occurs
        if r0["targets"] and kind != "large":
            for _ in range(2):
                t = rng.choice(r0["targets"])
                lim = list(wide)
                for k in rng.sample(range(7), rng.randint(1, 3)):
                    v = {0: t[0], 1: t[0], 2: t[1], 3: t[1], 4: t[2], 5: t[2],
                         6: t[3] + t[0] * thr[cam]}[k]
                    lim[k] = v + rng.choice([0, 0, 0, -1, 1])
                go(lim)
                made += 1
                out.count("limits")
