"""C32: accessors and comparison of parameter objects, targets, path data; views of frames; sorting."""
import copy
import math
import os


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCAccessors", "MCAccessorsBig.cfg" if ctx.thorough else None, min_states=20000, workers=3, timeout=3000)
    d = ctx.drive("accessors", "histories")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "acc.ndjson"), "TraceAccessors", lambda c: {"C32"}, expect_min=500,
                     label="histories of objects, sorting, views of frames", timeout=2500)
    m.result()
    ctx.assumptions += ["the setters of lists are given lists that the caller does not change afterwards"]


# ------------------------------------------------------------------- drivers
ORDER = {
    "control": ["num_cams", "img_base_name", "cal_img_base_name", "hp_flag", "all_cam_flag", "tiff_flag", "imx", "imy",
                "pix_x", "pix_y", "chfield"],
    "media": ["nlay", "n1", "n2", "d", "n3"],
    "sequence": ["img_base_name", "first", "last"],
    "track": ["dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc", "add", "dsumg", "dn", "dnx", "dny"],
    "volume": ["x_lay", "z_min_lay", "z_max_lay", "cn", "cnx", "cny", "csumg", "eps0", "corrmin"],
    "recognition": ["gvthresh", "discont", "nnmin", "nnmax", "nxmin", "nxmax", "nymin", "nymax", "sumg_min", "cr_sz"],
    "target": ["pnr", "x", "y", "n", "nx", "ny", "sumg", "tnr"],
    "path": ["x", "prev_frame", "next_frame", "prio"],
}
SETTERS = {
    "control": ["set_image_size/imx,imy", "set_pixel_size/pix_x,pix_y", "set_chfield/chfield", "set_hp_flag/hp_flag",
                "mm_set_n1/mm.n1", "mm_set_n3/mm.n3", "mm_set_layers/mm.n2,mm.d"],
    "media": ["set_n1/n1", "set_n3/n3", "set_layers/n2,d"],
    "sequence": ["set_first/first", "set_last/last", "set_img_base_name/img_base_name"],
    "track": ["set_dsumg/dsumg", "set_dn/dn", "set_dnx/dnx", "set_dny/dny"],
    "volume": ["set_z_min_lay/z_min_lay", "set_z_max_lay/z_max_lay", "set_cn/cn", "set_cnx/cnx", "set_csumg/csumg",
               "set_eps0/eps0", "set_corrmin/corrmin"],
    "recognition": [],
    "target": ["set_pos/x,y", "set_pnr/pnr", "set_pixel_counts/n,nx,ny", "set_sum_grey_value/sumg"],
    "path": [],
}
PAIRED = {"set_image_size", "set_pixel_size", "set_pos"}  # take one pair
GETTERS = {
    "control": ["get_image_size", "get_pixel_size", "get_chfield", "get_hp_flag", "get_num_cams", "get_allCam_flag",
                "get_tiff_flag", "get_multimedia_par", "get_multimedia_params"],
    "media": ["get_nlay", "get_n1", "get_n2", "get_n3", "get_d"],
    "sequence": ["get_first", "get_last"],
    "track": ["get_dvxmin", "get_dvxmax", "get_dvymin", "get_dvymax", "get_dvz_min", "get_dvz_max", "get_dangle", "get_dacc",
              "get_add", "get_dsumg", "get_dn", "get_dnx", "get_dny"],
    "volume": [],
    "recognition": ["get_grey_thresholds", "get_pixel_count_bounds", "get_xsize_bounds", "get_ysize_bounds", "get_min_sum_grey"],
    "target": ["pos", "count_pixels", "sum_grey_value"],
    "path": [],
}
SEVERAL = {"get_image_size", "get_pixel_size", "get_pixel_count_bounds", "get_xsize_bounds", "get_ysize_bounds", "pos", "count_pixels"}
LISTS = {"img_base_name", "cal_img_base_name", "n2", "d", "x_lay", "z_min_lay", "z_max_lay", "gvthresh"}
MEDIA = ORDER["media"]
REALS = {"pix_x", "pix_y", "n1", "n2", "d", "n3", "dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc",
         "dsumg", "dn", "dnx", "dny", "x_lay", "z_min_lay", "z_max_lay", "cn", "cnx", "cny", "csumg", "eps0", "corrmin", "x", "y"}


def s(v):
    """The value of a number, written in one way; other things as they are."""
    if isinstance(v, str):
        return v
    try:
        f = float(v)
    except (TypeError, ValueError):
        return type(v).__name__
    if math.isfinite(f) and f == int(f) and abs(f) < 1e15:
        return str(int(f))
    return repr(f)


def show_value(v):
    if isinstance(v, (list, tuple)) or getattr(v, "ndim", 0) == 1:
        return [s(x) for x in v]
    return s(v)


def value(rng, kind, f):
    f = f.split(".")[-1]
    if f in ("img_base_name", "cal_img_base_name"):
        return [rng.choice(["cam1", "cam2", "cam%d", "", "img/cam 3.", "c"]) for _ in range(rng.randint(1, 4))]
    if kind == "path" and f == "x":
        return [value(rng, "", "n1") for _ in range(3)]
    if f in LISTS:
        return [value(rng, "", "n1" if f in REALS else "first") for _ in range(4 if f == "gvthresh" else rng.randint(1, 3))]
    if f in REALS:
        return rng.choice([0.0, 1.0, -1.0, 0.5, 1e-7, 1.33, rng.uniform(-100, 100), rng.uniform(-1, 1), float(rng.randint(-9, 9))])
    return rng.choice([0, 1, -1, 2, 3, rng.randint(-100, 100), rng.randint(0, 5000)])


def near(rng, v):
    if isinstance(v, list):
        w = list(v)
        if rng.random() < .2:
            return w + [w[-1] if w else 1]
        if not w:
            return [1]
        i = rng.randrange(len(w))
        w[i] = near(rng, w[i])
        return w
    if isinstance(v, str):
        return v + "x"
    if isinstance(v, float):
        return v + rng.choice([1.0, -1.0, 1e-9 * (1 + abs(v)), 100.0, -2 * v or 1.0])
    return v + rng.choice([1, -1, 10, 256])


def tools():
    from openptv_python import parameters as pa
    from openptv_python import tracking_frame_buf as tf
    cls = {"control": pa.ControlPar, "media": pa.MultimediaPar, "sequence": pa.SequencePar, "track": pa.TrackPar,
           "volume": pa.VolumePar, "recognition": pa.TargetPar, "target": tf.Target, "path": tf.Pathinfo}
    cmp = {"control": pa.compare_control_par, "media": pa.compare_mm_np, "sequence": pa.compare_sequence_par,
           "track": pa.compare_track_par, "volume": pa.compare_volume_par, "recognition": pa.compare_target_par,
           "target": tf.compare_targets, "path": tf.compare_path_info}
    return pa, tf, cls, cmp


def histories(out):
    import numpy as np
    pa, tf, cls, cmp = tools()
    rng = out.rng
    for it in range(1600 if out.thorough else 200):
        history(out, rng, np, list(ORDER)[it % len(ORDER)], cls, cmp)
    candidates(out, rng, np, tf)
    for kind in ORDER:
        for _ in range(4 if out.thorough else 1):
            singles(out, rng, np, kind, cls, cmp)
    for _ in range(1500 if out.thorough else 150):
        sorting(out, rng, np, tf)
        corres(out, rng, np, tf)
    for _ in range(600 if out.thorough else 80):
        frames(out, rng, np, tf)


def parts(kind, o):
    """Every field of an object as plain attributes show it."""
    res = {f: show_value(getattr(o, f)) for f in ORDER[kind]}
    if kind == "control":
        res.update({"mm." + f: show_value(getattr(o.mm, f)) for f in MEDIA})
    if kind == "path":
        res["finaldecis"] = s(o.finaldecis)
        res["inlist"] = int(o.inlist)
        for f in ("decis", "linkdecis"):
            v = list(getattr(o, f))
            k = max([int(o.inlist)] + [i + 1 for i, x in enumerate(v) if x != 0])
            res[f] = [s(x) for x in v[:k]]
    return res


def arg(kind, f, v, np):
    return np.array(v, float) if kind == "path" and f == "x" else copy.deepcopy(v)


def history(out, rng, np, kind, cls, cmps):
    objs = [cls[kind]() for _ in range(4)]
    ops = []
    fields = ORDER[kind] + (["mm." + f for f in MEDIA] if kind == "control" else [])
    past = {}

    def draw(f):
        old = past.setdefault(f, [])
        if old and rng.random() < .5:
            v = copy.deepcopy(rng.choice(old))
            if rng.random() < .4:
                v = near(rng, v)
                v = v[:3] if kind == "path" and f == "x" else v
        else:
            v = value(rng, kind, f)
        old.append(v)
        return copy.deepcopy(v)

    def add(op):
        op["all"] = [parts(kind, o) for o in objs]
        ops.append(op)
        out.count(kind + "." + op["op"])

    def layers(names, vals):
        if "n2" in names[0] or "d" == names[-1]:
            k = min(len(vals[0]), len(vals[1]))
            return [vals[0][:k], vals[1][:k]]
        return vals

    def put(o, f, v):
        x = objs[o - 1]
        if f.startswith("mm."):
            setattr(x.mm, f[3:], copy.deepcopy(v))
        else:
            setattr(x, f, arg(kind, f, v, np))
        add({"op": "put", "o": o, "field": f, "vals": [show_value(v)], "err": ""})

    for _ in range(rng.randint(12, 30)):
        o = rng.randint(1, 4)
        x = objs[o - 1]
        z = rng.choice(["new", "make", "make", "set", "set", "set", "set", "set", "put", "put", "get", "get", "get", "cmp", "cmp",
                        "cmp", "twin", "candidate", "candidate", "reset", "refuse", "name", "name", "name"])
        if z == "new":
            r, err = out.call(cls[kind])
            objs[o - 1] = r if not err else x
            add({"op": "new", "o": o, "err": err})
        elif z == "make":
            named = rng.random() < .5
            f = rng.sample(ORDER[kind], rng.randint(1, len(ORDER[kind]))) if named else ORDER[kind][:rng.randint(1, len(ORDER[kind]))]
            if kind == "media" and ("n2" in f) != ("d" in f):
                f = list(MEDIA)
                named = False
            v = [draw(q) for q in f]
            if kind == "media" and "n2" in f:
                i, j = f.index("n2"), f.index("d")
                k = min(len(v[i]), len(v[j]))
                v[i], v[j] = v[i][:k], v[j][:k]
            a = [arg(kind, q, y, np) for q, y in zip(f, v)]
            r, err = out.call(cls[kind], **dict(zip(f, a))) if named else out.call(cls[kind], *a)
            objs[o - 1] = r if not err else x
            add({"op": "make", "o": o, "named": named, "fields": f, "vals": [show_value(y) for y in v], "err": err})
        elif z == "set" and SETTERS[kind]:
            name, f = rng.choice(SETTERS[kind]).split("/")
            f = f.split(",")
            v = layers(f, [draw(q) for q in f])
            a = copy.deepcopy(v)
            if name in PAIRED:
                a = [tuple(a)]
            if name.startswith("mm_"):
                fn = getattr(rng.choice([x.get_multimedia_par, x.get_multimedia_params, lambda: x.mm])(), name[3:])
            else:
                fn = getattr(x, name)
            _, err = out.call(fn, *a)
            add({"op": "set", "o": o, "name": name, "vals": [show_value(y) for y in v], "err": err})
        elif z == "put" or (z == "set" and kind == "path"):
            f = rng.choice(fields)
            put(o, f, draw(f))
        elif z == "get" and GETTERS[kind]:
            name = rng.choice(GETTERS[kind])
            r, err = out.call(getattr(x, name))
            if err:
                vals = []
            elif name.startswith("get_multimedia"):
                vals = [show_value(getattr(r, f)) for f in MEDIA]
            else:
                vals = [show_value(y) for y in r] if name in SEVERAL else [show_value(r)]
            add({"op": "get", "o": o, "name": name, "vals": vals, "err": err})
        elif z == "name" and kind == "sequence" and x.img_base_name:
            cam = rng.randrange(len(x.img_base_name))
            r, err = out.call(x.get_img_base_name, cam)
            add({"op": "name", "o": o, "cam": cam + 1, "val": show_value(r) if not err else "", "err": err})
        elif z == "candidate" and kind == "path":
            if len(x.decis) > x.inlist:
                fit, nr = rng.choice([0.0, 1.0, rng.uniform(0, 10)]), rng.randint(0, 300)
                _, err = out.call(x.register_link_candidate, fit, nr)
                add({"op": "candidate", "o": o, "fit": s(fit), "nr": s(nr), "err": err})
        elif z == "reset" and kind == "path":
            _, err = out.call(x.reset_links)
            add({"op": "reset", "o": o, "err": err})
        elif z == "refuse" and kind in ("media", "control"):
            m = x.mm if kind == "control" else x
            _, err = out.call(m.set_layers, [1.5] * rng.choice([0, 2]), [2.0])
            add({"op": "refuse", "o": o, "err": err})
            _, err = out.call(cls["media"], 1, 1.0, [1.3, 1.4], [2.0], 1.1)
            add({"op": "refuse", "o": o, "err": err})
        elif z in ("cmp", "twin"):
            b = rng.randint(1, 4)
            y = objs[b - 1]
            if z == "twin" and b != o:
                # the same values one by one, then perhaps one that differs
                for f in fields:
                    v = getattr(x.mm, f[3:]) if f.startswith("mm.") else getattr(x, f)
                    v = [float(q) for q in v] if kind == "path" and f == "x" else v
                    if show_value(getattr(y.mm, f[3:]) if f.startswith("mm.") else getattr(y, f)) != show_value(v):
                        put(b, f, v)
                if rng.random() < .5:
                    f = rng.choice(fields)
                    v = getattr(x.mm, f[3:]) if f.startswith("mm.") else getattr(x, f)
                    put(b, f, near(rng, [float(q) for q in v] if kind == "path" and f == "x" else v)[:3]
                        if kind == "path" and f == "x" else near(rng, v))
            compare(out, rng, kind, objs, cmps, o, b, add)
    out.rec("acc", {"t": "history", "kind": kind, "ops": ops})


def compare(out, rng, kind, objs, cmps, o, b, add):
    x, y = objs[o - 1], objs[b - 1]
    r, err = out.call(cmps[kind], x, y) if rng.random() < .6 else out.call(lambda: x == y)
    res = "E" if err or type(r).__name__ not in ("bool", "bool_") else "T" if r else "F"
    out.count("cmp." + res)
    add({"op": "cmp", "a": o, "b": b, "res": res})


def singles(out, rng, np, kind, cls, cmps):
    """Two equal objects of which one field at a time differs."""
    objs = [cls[kind]() for _ in range(4)]
    ops = []
    fields = ORDER[kind] + (["mm." + f for f in MEDIA] if kind == "control" else [])
    fields += ["finaldecis"] if kind == "path" else []

    def add(op):
        op["all"] = [parts(kind, o) for o in objs]
        ops.append(op)

    def put(o, f, v):
        x = objs[o - 1]
        if f.startswith("mm."):
            setattr(x.mm, f[3:], copy.deepcopy(v))
        else:
            setattr(x, f, arg(kind, f, v, np))
        add({"op": "put", "o": o, "field": f, "vals": [show_value(v)], "err": ""})

    vals = {f: value(rng, kind, f) if f != "finaldecis" else 2.5 for f in fields}
    for o in (1, 2):
        for f in fields:
            put(o, f, vals[f])
    compare(out, rng, kind, objs, cmps, 1, 2, add)
    for f in fields:
        w = near(rng, vals[f])
        put(2, f, w[:3] if f == "x" and kind == "path" else w)
        for a, b in ((1, 2), (2, 1)):
            compare(out, rng, kind, objs, cmps, a, b, add)
        put(2, f, vals[f])
    compare(out, rng, kind, objs, cmps, 2, 1, add)
    if kind == "path":
        # entries of candidates that were not (or no longer) registered are fields as well
        for f in ("decis", "linkdecis"):
            for x, i in ((objs[0], len(getattr(objs[0], f)) - 1), (objs[2], 1)):
                o = objs.index(x) + 1
                old = getattr(x, f)[i]
                for v in (old + 1, old):
                    getattr(x, f)[i] = v
                    add({"op": "put", "o": o, "field": f, "vals": [parts(kind, x)[f]], "err": ""})
                    for a, b in ((1, 2), (2, 1), (3, 4), (4, 3)):
                        compare(out, rng, kind, objs, cmps, a, b, add)
        for a, b in (((1, 5.0, 3), (2, 5.0, 3)), ((1, 6.0, 3), (2, 6.0, 4)), ((3, 6.0, 3), (4, 7.0, 3))):
            for o, fit, nr in (a, b):
                _, err = out.call(objs[o - 1].register_link_candidate, fit, nr)
                add({"op": "candidate", "o": o, "fit": s(fit), "nr": s(nr), "err": err})
            compare(out, rng, kind, objs, cmps, a[0], b[0], add)
    out.rec("acc", {"t": "history", "kind": kind, "ops": ops})


def candidates(out, rng, np, tf):
    """As many candidates as there is room for."""
    objs = [tf.Pathinfo() for _ in range(4)]
    ops = []
    for i in range(len(objs[0].decis)):
        fit, nr = rng.uniform(0, 100), rng.randint(1, 5000)
        _, err = out.call(objs[1].register_link_candidate, fit, nr)
        ops.append({"op": "candidate", "o": 2, "fit": s(fit), "nr": s(nr), "err": err, "all": [parts("path", o) for o in objs]})
    out.rec("acc", {"t": "history", "kind": "path", "ops": ops})


def sorting(out, rng, np, tf):
    n = rng.choice([0, 1, 2, 3, rng.randint(4, 30)])
    keys = [rng.randint(-5, 5) if rng.random() < .6 else rng.randint(-10 ** 6, 10 ** 6) for _ in range(n)]
    scale = rng.choice([1.0, .5, .001])
    ids = list(range(1, n + 1))
    if rng.random() < .5:
        t = [tf.Target(pnr=i, x=float(-k), y=k * scale, n=i, nx=i + 1, ny=i + 2, sumg=i + 3, tnr=i + 4) for i, k in zip(ids, keys)]
        before = copy.deepcopy(t)
        r, err = out.call(tf.sort_target_y, t)
        got = [] if err else [q.pnr for q in r]
        same = err == "" and all(a is b or a == b for a, b in zip(t, before)) and len(t) == n and \
            all((q.n, q.nx, q.ny, q.sumg, q.tnr, q.y) == (q.pnr, q.pnr + 1, q.pnr + 2, q.pnr + 3, q.pnr + 4, keys[q.pnr - 1] * scale) for q in r)
        out.count("sort.targets")
    else:
        a = np.recarray((n,), dtype=tf.n_tupel_dtype)
        for i, k in zip(ids, keys):
            a[i - 1].p = [i, i + 1, i + 2, i + 3]
            a[i - 1].corr = k * scale
        r, err = out.call(tf.quicksort_n_tupel, a)
        got = [] if err else [int(q.p[0]) for q in r]
        same = err == "" and all(list(q.p) == [q.p[0] + j for j in range(4)] and q.corr == keys[q.p[0] - 1] * scale for q in r)
        out.count("sort.matches")
    out.rec("acc", {"t": "sort", "keys": keys, "ids": ids, "out": got, "same": bool(same)})


def corres(out, rng, np, tf):
    def rows(a):
        return [[int(q.nr)] + [int(v) for v in q.p] for q in np.atleast_1d(a)] if not hasattr(a, "nr") or np.ndim(a.nr) \
            else [[int(a.nr)] + [int(v) for v in a.p]]
    n = rng.randint(1, 4)
    a = np.recarray((n,), dtype=tf.Corres_dtype)
    for i in range(n):
        a[i].nr = rng.randint(0, 3)
        a[i].p = [rng.randint(-1, 2) for _ in range(4)]
    b = a.copy()
    z = rng.choice(["same", "nr", "p", "p", "other"])
    i = rng.randrange(n)
    if z == "nr":
        b[i].nr += 1
    elif z == "p":
        b[i].p[rng.randrange(4)] += 1
    one = rng.random() < .5
    x, y = (a[i], b[i]) if one else (a, b)
    if z == "other":
        j = rng.randrange(n)
        x, y = a[i], a[j]
    rx, ry = rows(x), rows(y)
    r, err = out.call(tf.compare_corres, x, y)
    res = "E" if err else "T" if r else "F"
    out.rec("acc", {"t": "corres", "a": rx, "b": ry, "res": res})
    out.count("corres." + res)


def frames(out, rng, np, tf):
    cams = rng.randint(1, 4)
    room = rng.choice([8, 20])
    f = tf.Frame(cams, room)
    n = rng.choice([0, 1, 2, rng.randint(1, room)])
    f.num_parts = n
    p, c, tg = [], [[] for _ in range(cams)], []
    for cam in range(cams):
        k = rng.randint(1, room)
        f.num_targets[cam] = k
        row = []
        for i in range(room):
            x, y = rng.choice([0.0, rng.uniform(0, 2000)]), rng.uniform(-1, 1500)
            f.targets[cam][i] = tf.Target(pnr=i, x=x, y=y, n=3, nx=1, ny=2, sumg=9, tnr=rng.randint(-1, 9))
            row.append([s(x), s(y)])
        tg.append(row)
    for i in range(n):
        x = [value(rng, "", "n1") for _ in range(3)]
        f.path_info[i].x = np.array(x)
        p.append([s(v) for v in x])
        f.correspond[i].nr = i + 1
        for cam in range(cams):
            t = rng.choice([0, 0, 1, rng.randint(1, f.num_targets[cam]), room])
            f.correspond[i].p[cam] = t - 1
            c[cam].append(t)
    before = [copy.deepcopy(f.path_info[:n]), copy.deepcopy(f.targets), f.correspond.copy(), list(f.num_targets)]
    got, err = out.call(f.positions)
    views = []
    for cam in range(cams):
        r, e = out.call(f.target_positions_for_camera, cam)
        err = err or e
        views.append([[s(v) for v in row] for row in np.asarray(r, float)] if not e else [])
        if not e and len(r) and rng.random() < .5:
            r[:] = 7.0
    res = [[s(v) for v in row] for row in np.asarray(got, float)] if got is not None else []
    if got is not None and len(got):
        got[:] = 7.0
    same = before[0] == f.path_info[:n] and before[1] == f.targets and bool((before[2] == f.correspond).all()) and before[3] == list(f.num_targets)
    out.rec("acc", {"t": "frame", "p": p, "c": c, "tg": tg, "got": res, "cams": views, "err": err, "same": bool(same)})
    out.count("frames")
