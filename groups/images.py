"""C33: preparation of images: local means, second filters, masks, differences, copies."""
import os


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCImages", "MCImagesBig.cfg" if ctx.thorough else None, min_states=5000, workers=3, timeout=3000)
    d = ctx.drive("images", "prepared")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "img.ndjson"), "TraceImages", lambda c: {"C33"}, expect_min=300,
                     label="prepared images", timeout=2500)
    m.result()
    ctx.assumptions += ["means may be rounded down twice (rows, columns) and filters once; filters whose results leave the "
                        "grey values are not examined"]


# ------------------------------------------------------------------- drivers
def picture(rng, np, h=None, w=None):
    h = h or rng.choice([1, 2, 3, 5, rng.randint(2, 9)])
    w = w or rng.choice([1, 2, 3, 5, rng.randint(2, 9)])
    z = rng.choice(["any", "any", "sparse", "two", "even", "bright", "one"])
    if z == "any":
        g = [[rng.randint(0, 255) for _ in range(w)] for _ in range(h)]
    elif z == "sparse":
        g = [[rng.choice([0, 0, 0, 0, rng.randint(0, 255)]) for _ in range(w)] for _ in range(h)]
    elif z == "two":
        a, b = rng.randint(0, 255), rng.randint(0, 255)
        g = [[rng.choice([a, b]) for _ in range(w)] for _ in range(h)]
    elif z == "even":
        a = rng.choice([0, 1, 127, 255])
        g = [[a] * w for _ in range(h)]
    elif z == "bright":
        g = [[rng.randint(250, 255) for _ in range(w)] for _ in range(h)]
    else:
        g = [[0] * w for _ in range(h)]
        g[rng.randrange(h)][rng.randrange(w)] = rng.choice([255, 225, 9, 128])
    a = np.array(g, np.uint8)
    k = rng.random()
    if k < .1:
        a = np.asfortranarray(a)
    elif k < .2:
        big = np.full((2 * h, 2 * w), 99, np.uint8)
        big[::2, ::2] = a
        a = big[::2, ::2]
    return a


def kernel(rng):
    """A filter in thousandths whose results stay grey values."""
    z = rng.choice(["one", "any", "sum", "edge"])
    k = [0] * 9
    if z == "one":
        k[rng.randrange(9)] = rng.choice([1000, 500])
    elif z == "edge":
        i, j = rng.sample(range(9), 2)
        k[i], k[j] = 300, 700
    else:
        left = 1000
        for i in rng.sample(range(9), 9):
            k[i] = rng.randint(0, left)
            left -= k[i]
            if z == "any":
                left = min(left, 200)
    return [k[0:3], k[3:6], k[6:9]]


def kernel_file(rng, path, k):
    rows = [[rng.choice([f"{v / 1000}", f"{v / 1000:.3f}", f"{v / 1000:.6e}"]) for v in r] for r in k]
    sep = rng.choice([" ", "\t", "   "])
    text = rng.choice(["\n", "\n", "\r\n"]).join(sep.join(r) for r in rows) + rng.choice(["", "\n", "\n\n"])
    with open(path, "w", newline="") as f:
        f.write(text)


def grey(r):
    import numpy as np
    a = np.asarray(r)
    return [[int(v) for v in row] for row in a] if a.ndim == 2 else []


def kind(r):
    return str(getattr(r, "dtype", type(r).__name__))


def prepared(out):
    import numpy as np
    from openptv_python import image_processing as ip
    from openptv_python.parameters import ControlPar
    rng = out.rng
    path = os.path.join(out.dir, "filter.txt")

    def put(op, img, before, res, err, **more):
        rec = {"op": op, "img": grey(before), "err": err, "out": grey(res) if not err else [],
               "same": bool(np.array_equal(img, before)), "kind": kind(res) if not err else ""}
        rec.update(more)
        out.rec("img", rec)
        out.count(op)

    for _ in range(2500 if out.thorough else 260):
        img = picture(rng, np)
        before = img.copy()
        n = rng.choice([0, 1, 1, 1, 2, 3, rng.randint(1, 6)])
        hp = rng.choice([0, 1, 2])
        k = kernel(rng) if hp == 2 else []
        base, e0 = out.call(ip.prepare_image, img, n, 0)
        if hp == 2:
            kernel_file(rng, path, k)
            res, err = out.call(ip.prepare_image, img, n, 2, path)
        elif hp == 1:
            res, err = rng.choice([lambda: out.call(ip.prepare_image, img, n, 1),
                                   lambda: out.call(ip.preprocess_image, img, 1, ControlPar(1), n),
                                   lambda: out.call(ip.prepare_image, img, filter_hp=1, dim_lp=n)])()
        else:
            res, err = rng.choice([lambda: out.call(ip.prepare_image, img, dim_lp=n),
                                   lambda: out.call(ip.preprocess_image, img, 0, ControlPar(1), n)])()
        if n == 1 and hp == 0 and rng.random() < .5:
            res, err = out.call(ip.prepare_image, img)
        put("prepare", img, before, res, e0 or err, n=n, hp=hp, k=k, base=grey(base) if not e0 else [])
        out.count(f"prepare.hp{hp}")
    for _ in range(300 if out.thorough else 40):
        helpers(out, rng, np, ip, ControlPar, put)
    refusals(out, rng, np, ip, path, put)


def helpers(out, rng, np, ip, ControlPar, put):
    img = picture(rng, np)
    before = img.copy()
    h, w = img.shape
    n = rng.choice([0, 1, 2, rng.randint(1, 5)])
    c = ControlPar(1)
    c.set_image_size((w, h))
    flat = np.ascontiguousarray(img).reshape(-1)
    res, err = out.call(ip.fast_box_blur, n, flat, c)
    shape_ok = not err and np.shape(res) == (h * w,)
    put("mean", flat.reshape(h, w), before, np.reshape(res, (h, w)) if shape_ok else None, err or ("" if shape_ok else "shape"), n=n)
    res, err = out.call(ip.lowpass_3, img)
    put("nine", img, before, res, err)
    res, err = out.call(ip.filter_3, img)
    put("ninemirrored", img, before, res, err)
    k = kernel(rng)
    ker = np.array(k, float) / 1000
    kb = ker.copy()
    res, err = out.call(ip.filter_3, img, ker)
    put("filter", img, before, res, err or ("" if np.array_equal(ker, kb) else "filter changed"), k=k)
    other = picture(rng, np, h, w)
    if rng.random() < .3:
        other = np.array(before)
        other[rng.randrange(h), rng.randrange(w)] ^= 1
    ob = other.copy()
    new = np.full((h, w), rng.choice([0, 77]), np.uint8)
    _, err = out.call(ip.subtract_img, img, other, new)
    put("difference", img, before, new, err or ("" if np.array_equal(other, ob) else "other image changed"), other=grey(ob))
    mask = np.array([[rng.choice([0, 0, 1, 255, rng.randint(0, 255)]) for _ in range(w)] for _ in range(h)], np.uint8)
    mb = mask.copy()
    im = np.ascontiguousarray(img)
    res, err = out.call(ip.subtract_mask, im, mask)
    put("mask", im, before, res, err or ("" if np.array_equal(mask, mb) else "mask changed"), other=grey(mb))
    res, err = out.call(ip.copy_images, img)
    shown = grey(res) if not err else []
    if not err:
        res[:] = 255 - res
    rec = {"op": "copy", "img": grey(before), "err": err, "out": shown, "same": bool(np.array_equal(img, before)),
           "kind": kind(res) if not err else ""}
    out.rec("img", rec)


def refusals(out, rng, np, ip, path, put):
    for t in (np.int32, np.float64, np.uint16, np.int8, bool):
        img = np.ones((4, 5), t)
        res, err = out.call(ip.prepare_image, img, 1, rng.choice([0, 1]))
        put("refused", img, np.ones((4, 5), t), None, err)
        _, err = out.call(ip.preprocess_image, img, 0, None, 1)
        put("refused", img, np.ones((4, 5), t), None, err)
    good = np.full((4, 5), 9, np.uint8)
    missing = path + ".missing"
    _, err = out.call(ip.prepare_image, good, 1, 2, missing)
    put("refused", good, good.copy(), None, err)
    for text in ("", "1 2 3\n4 5 6\n", "1 2 3\n4 5 6\n7 8 x\n", "1 2 3 4 5 6 7 8", "1 2 3\n4 5 6\n7 8 9\n10"):
        with open(path, "w") as f:
            f.write(text)
        _, err = out.call(ip.prepare_image, good, 1, 2, path)
        put("refused", good, good.copy(), None, err)
