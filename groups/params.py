"""C19, C20 and the parameter part of C18: parameter files, conversion and comparison of parameters."""
import os

DAMAGE = {"missing-file-unnoticed", "damage-unnoticed", "default-not-given", "default-wrong"}


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCParams", "MCParamsBig.cfg" if ctx.thorough else None, min_states=500,
                        workers=3, timeout=3000)
    if ctx.prop == "C19":
        d = ctx.drive("params", "texts")
        ctx.clauses.update(ctx.stats(d))
        if not stuck(ctx):
            ctx.validate(os.path.join(d, "texts.ndjson"), "TraceParams", lambda c: {"C18"} if c in DAMAGE else {"C19"},
                         expect_min=300, label="parameter files", timeout=1500)
    else:
        d = ctx.drive("params", "conversions")
        ctx.clauses.update(ctx.stats(d))
        if not stuck(ctx):
            ctx.validate(os.path.join(d, "conversions.ndjson"), "TraceParams", lambda c: {"C20"}, expect_min=300,
                         label="conversions and comparisons", timeout=1500)
    m.result()
    ctx.assumptions += ["numbers are compared to fifteen significant digits"]


def stuck(ctx):
    return any(x["clause"] == "call-did-not-return" for x in ctx.fails)


# ------------------------------------------------------------------- drivers
NAMES = ["img/cam1.%d", "cam2", "cal/cam3.tif", "a b c", "./x/y_", "cam1.%05d", "C:\\d\\c1", "été", "img", "1", "no", "x#y",
         "cal\\fixp.txt", "a_very_long_name_" * 8, "cam4.", "-", "0.5", "name,with,commas", "t\tb"]
#        class, fields of whole numbers, fields of names, yes-or-no fields
INTS = {"sequence": {"first", "last"}, "track": {"add"}, "volume": set(),
        "control": {"hp_flag", "all_cam_flag", "tiff_flag", "imx", "imy", "chfield", "num_cams"},
        "target": None, "orient": None, "calibration": {"tiff_flag", "pair_flag", "chfield"}, "planes": {"num_planes"},
        "examine": set(), "version": set(), "ori": set(), "addpar": set()}
FLAGS = {"examine": {"examine_flag", "combine_flag"}, "version": {"existing_target_flag"}}
STR = {"img_base_name", "cal_img_base_name", "fixp_name", "img_name", "img_ori0", "filename"}


def layout(kind, n):
    """The fields in the order of their lines (as in ParamFiles.tla), to choose values of the right type."""
    at = lambda f, k: [f"{f}.{i + 1}" for i in range(k)]  # noqa: E731
    turns = lambda f, g, k: [x for p in zip(at(f, k), at(g, k)) for x in p]  # noqa: E731
    return {
        "sequence": at("img_base_name", n) + ["first", "last"],
        "track": "dvxmin dvxmax dvymin dvymax dvzmin dvzmax dangle dacc add".split(),
        "volume": "x_lay.1 z_min_lay.1 z_max_lay.1 x_lay.2 z_min_lay.2 z_max_lay.2 cnx cny cn csumg corrmin eps0".split(),
        "control": ["num_cams"] + turns("img_base_name", "cal_img_base_name", n)
        + "hp_flag all_cam_flag tiff_flag imx imy pix_x pix_y chfield mm.n1 mm.n2.1 mm.n3 mm.d.1".split(),
        "target": at("gvthresh", 4) + "discont nnmin nnmax nxmin nxmax nymin nymax sumg_min cr_sz".split(),
        "orient": [f + "flag" for f in "use cc xh yh k1 k2 k3 p1 p2 scx she interf".split()],
        "calibration": ["fixp_name"] + turns("img_name", "img_ori0", n) + ["tiff_flag", "pair_flag", "chfield"],
        "planes": ["num_planes"] + at("filename", n),
        "examine": ["examine_flag", "combine_flag"],
        "version": ["existing_target_flag"],
    }[kind]


def canon(v):
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return str(int(v))
    return "%.15g" % float(v)


def flat(v, pre=""):
    """{address: value as text} of a dataclass, dictionary, named tuple or list."""
    import dataclasses
    import numpy as np
    if dataclasses.is_dataclass(v):
        v = {f.name: getattr(v, f.name) for f in dataclasses.fields(v)}
    elif hasattr(v, "_asdict"):
        v = v._asdict()
    if isinstance(v, dict):
        items = [(str(k), x) for k, x in v.items()]
    elif isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim):
        items = [(str(i + 1), x) for i, x in enumerate(v)]
    elif v is None:
        return {pre: "None"}
    else:
        return {pre: canon(v)}
    res = {}
    for k, x in items:
        res.update(flat(x, pre + "." + k if pre else k))
    return res


def value(rng, kind, f, used):
    base = f.split(".")[0]
    while True:
        if base in STR:
            v = rng.choice(NAMES) + rng.choice(["", "", str(rng.randint(0, 99))])
        elif base in FLAGS.get(kind, ()):
            return str(rng.randint(0, 1))
        elif INTS[kind] is None or base in INTS[kind]:
            v = str(rng.choice([rng.randint(0, 9), rng.randint(10, 99999), -rng.randint(1, 99), 0, 10**9]))
        else:
            v = canon(rng.choice([rng.uniform(-1, 1), rng.uniform(-500, 500), rng.randint(-50, 50), 1e-7 * rng.random(),
                                  1e8 * rng.random()]))
        if v not in used or rng.random() < .02:
            used.add(v)
            return v


def written(rng, v, isname):
    """Forms in which the value may stand on its line."""
    if not isname:
        z = rng.random()
        if z < .15 and v.lstrip("-").isdigit():
            v = ("-" if v[0] == "-" else rng.choice(["", "+", "0", "00"])) + v.lstrip("-")
    return rng.choice(["", "", "", " ", "\t"]) + v + rng.choice(["", "", "", " ", "   ", "\t"])


READERS = {
    "sequence": [("SequencePar", "from_file", "Pn"), (None, "read_sequence_par", "Pn")],
    "track": [("TrackPar", "from_file", "P"), (None, "read_track_par", "P")],
    "volume": [("VolumePar", "from_file", "P"), (None, "read_volume_par", "P")],
    "control": [("ControlPar", "from_file", "P"), (None, "read_control_par", "P")],
    "target": [("TargetPar", "from_file", "P"), (None, "read_target_par", "P")],
    "orient": [("OrientPar", "from_file", "P")],
    "calibration": [("CalibrationPar", "from_file", "Pn"), (None, "read_cal_ori_parameters", "Pn")],
    "planes": [("MultiPlanesPar", "from_file", "P")],
    "examine": [("ExaminePar", "from_file", "P"), (None, "read_examine_par", "P")],
    "version": [("PftVersionPar", "from_file", "P")],
}


def reader(kind, way):
    from openptv_python import parameters as pa
    cls, fn, args = READERS[kind][way % len(READERS[kind])]
    return getattr(getattr(pa, cls) if cls else pa, fn), args


def read(out, kind, way, path, n):
    from pathlib import Path
    fn, args = reader(kind, way)
    r, err = out.call(fn, *([Path(path)] + ([n] if "n" in args else [])), _desc=f"{kind} {way} {path}")
    if err or r is None:
        return {"err": True, "val": {"-": "-"}}
    return {"err": False, "val": flat(r) or {"-": "-"}}


def text_of(rng, kind, n):
    used = set()
    lay = layout(kind, n)
    vals = [str(n) if f in ("num_cams", "num_planes") else value(rng, kind, f, used) for f in lay]
    return lay, vals


def put(path, raw, rng):
    end = rng.choice(["\n", "\n", "\n", "\r\n"])
    with open(path, "w", encoding="utf-8", newline="") as o:
        o.write(end.join(raw) + (end if rng.random() < .7 and raw else ""))


def texts(out):
    rng = out.rng
    rounds = 60 if out.thorough else 8
    path = os.path.join(out.dir, "p.par")
    for _ in range(rounds):
        for kind in READERS:
            for n in [1, 2, 3, 4, rng.randint(5, 9)]:
                for way in range(len(READERS[kind])):
                    lay, vals = text_of(rng, kind, n)
                    raw = [written(rng, v, f.split(".")[0] in STR) for f, v in zip(lay, vals)]
                    # a text line: what is around the name is not part of it
                    lines = [v.strip() for v in vals]
                    if rng.random() < .3:
                        raw += ["", "17"][:rng.randint(1, 2)]
                        lines += ["", "17"][:len(raw) - len(lines)]
                    put(path, raw, rng)
                    before = open(path, "rb").read()
                    got = read(out, kind, way, path, n)
                    if open(path, "rb").read() != before:
                        got = {"err": False, "val": {"file": "changed"}}
                    out.rec("texts", {"t": "file", "kind": kind, "n": n, "missing": False, "lines": lines, "way": way,
                                      "got": got})
                    out.count("read." + kind)
        for n in range(6):
            writes(out, rng, path)


def writes(out, rng, path):
    from openptv_python import parameters as pa
    kind = rng.choice(["target", "target", "version"])
    lay, vals = text_of(rng, kind, 4)
    if rng.random() < .5:
        put(path, ["5"] * rng.choice([1, 5, 30]), rng)
    elif os.path.exists(path):
        os.remove(path)
    if kind == "target":
        num = [int(v) for v in vals]
        obj = pa.TargetPar(num[:4], *num[4:])
        _, err = out.call(pa.write_target_par, obj, path)
    else:
        obj = pa.PftVersionPar(vals[0] == "1")
        from pathlib import Path
        _, err = out.call(obj.write, Path(path))
    lines = open(path).read().split() if os.path.exists(path) else []
    out.rec("texts", {"t": "write", "kind": kind, "n": 4, "obj": flat(obj), "err": err, "lines": lines,
                      "got": read(out, kind, rng.randint(0, 1), path, 4)})
    out.count("write." + kind)


def damage(rng, raw):
    """(what, remaining lines)."""
    k = rng.randrange(len(raw))
    z = rng.choice(["cut", "cut", "cut", "drop"])
    return raw[:k] if z == "cut" else raw[:k] + raw[k + 1:]


def inputs(out):
    """Missing and damaged parameter and calibration files (C18)."""
    rng = out.rng
    rounds = 40 if out.thorough else 5
    path = os.path.join(out.dir, "p.par")
    for it in range(rounds):
        for kind in READERS:
            for n in [1, 2, 3, 4, rng.randint(5, 9)]:
                for way in range(len(READERS[kind])):
                    lay, vals = text_of(rng, kind, n)
                    for k in range(len(vals) + 1):
                        if it and rng.random() < .7:
                            continue
                        if os.path.exists(path):
                            os.remove(path)
                        keep = vals[:k]
                        if k == len(vals):
                            # a line in the middle lost
                            k = rng.randrange(len(vals))
                            keep = vals[:k] + vals[k + 1:]
                            if kind in ("planes", "control") and k == 0:
                                continue
                        put(path, keep, rng)
                        out.rec("inputs", {"t": "file", "kind": kind, "n": n, "missing": False,
                                           "lines": [v.strip() for v in keep], "way": way,
                                           "got": read(out, kind, way, path, n)})
                        out.count("damaged." + kind)
                    if os.path.exists(path):
                        os.remove(path)
                    out.rec("inputs", {"t": "file", "kind": kind, "n": n, "missing": True, "lines": [], "way": way,
                                       "got": read(out, kind, way, path, n)})
                    out.count("missing." + kind)
        orifiles(out, rng, full=it == 0)


def orifiles(out, rng, full):
    from pathlib import Path
    from openptv_python import calibration as ca
    po, pd = Path(out.dir) / "c.ori", Path(out.dir) / "c.addpar"

    def numbers(n):
        return [canon(rng.choice([rng.uniform(-1, 1), rng.uniform(-300, 300), rng.randint(-9, 9)])) for _ in range(n)]

    def write(p, w, breaks):
        with open(p, "w") as o:
            for i, v in enumerate(w):
                o.write(v + ("\n" if i in breaks else " "))
            o.write(rng.choice(["", "\n", "\n\n"]))

    def got(ways, a, b):
        r, err = out.call(rng.choice(ways), a, b)
        if err or r is None:
            return {"err": True, "val": {"-": "-"}}, {"err": True, "val": {"-": "-"}}
        o = {}
        for nm, v in (("pos", r.get_pos()), ("angles", r.get_angles()), ("primary", r.get_primary_point()), ("glass", r.get_glass_vec())):
            o.update(flat(list(v), nm))
        return {"err": False, "val": o}, {"err": False, "val": flat(list(r.added_par), "added")}

    ways = [ca.Calibration.from_file, ca.read_ori, ca.read_calibration]
    lens = list(range(24)) if full else [rng.randrange(24) for _ in range(6)]
    for k in lens:
        w = numbers(max(21, k))[:k]
        write(po, w, {2, 5, 8, 11, 14, 16, 17})
        write(pd, numbers(7), set())
        g, _ = got(ways, po, pd)
        out.rec("inputs", {"t": "file", "kind": "ori", "n": 1, "missing": False, "lines": w, "got": g})
        out.count("ori")
    lens = list(range(9)) if full else [rng.randrange(9) for _ in range(4)]
    for k in lens:
        w = numbers(k)
        write(po, numbers(21), {2, 5, 8, 11, 14, 16, 17})
        write(pd, w, set())
        _, g = got(ways, po, pd)
        out.rec("inputs", {"t": "file", "kind": "addpar", "n": 1, "missing": False, "lines": w, "got": g})
        out.count("addpar")
    for a, b, kind in ((po.with_name("none.ori"), pd, "ori"), (po, pd.with_name("none.addpar"), "addpar")):
        g = got(ways, a, b)[0 if kind == "ori" else 1]
        out.rec("inputs", {"t": "file", "kind": kind, "n": 1, "missing": True, "lines": [], "got": g})


# ---------------------------------------------------- conversion, comparison
CLASSES = {"sequence": "SequencePar", "track": "TrackPar", "volume": "VolumePar", "control": "ControlPar", "target": "TargetPar",
           "orient": "OrientPar", "calibration": "CalibrationPar", "planes": "MultiPlanesPar", "examine": "ExaminePar",
           "version": "PftVersionPar", "media": "MultimediaPar"}
COMPARE = {"sequence": "compare_sequence_par", "track": "compare_track_par", "volume": "compare_volume_par",
           "control": "compare_control_par", "target": "compare_target_par", "media": "compare_mm_np"}


def make(rng, kind, n, plain=False):
    """A parameter object, all fields set to values of their own."""
    import dataclasses
    import numpy as np
    from openptv_python import parameters as pa
    cls = getattr(pa, CLASSES[kind])
    used = set()
    num = lambda t: rng.choice([t, t, t, t, np.float64 if t is float else np.int64]) if not plain else t  # noqa: E731

    def real(neg=True):
        while True:
            v = rng.choice([rng.uniform(-1, 1), rng.uniform(-900, 900), rng.randint(-9, 99), 1e-9 * rng.random(), 1e12 * rng.random()])
            v = float(canon(v if neg else abs(v) + .001))
            if v not in used:
                used.add(v)
                return num(float)(v)

    def whole():
        while True:
            v = rng.choice([rng.randint(-9, 99), rng.randint(100, 10**6)])
            if v not in used:
                used.add(v)
                return num(int)(v)

    def name():
        return rng.choice(NAMES + ["yes", "null", "1e3", "a: b", "- x", "", " lead", "trail ", "#c", "%", "\u00e9", "'q'", "\"", "0x1F"])

    seq = (lambda v: v) if plain else (lambda v: rng.choice([v, v, v, tuple(v)]))
    kw = {}
    if kind == "media":
        k = rng.choice([1, 1, 1, 2, 3])
        return cls(nlay=rng.choice([whole(), 1, k]), n1=real(), n2=seq([real() for _ in range(k)]), d=seq([real() for _ in range(k)]), n3=real())
    for f in dataclasses.fields(cls):
        if f.name == "mm":
            kw["mm"] = make(rng, "media", n, plain)
        elif f.name in STR and f.name != "fixp_name":
            kw[f.name] = [name() for _ in range(n)]
        elif f.name == "fixp_name":
            kw[f.name] = name()
        elif f.name in FLAGS.get(kind, ()):
            kw[f.name] = rng.random() < .5
        elif f.name in ("x_lay", "z_min_lay", "z_max_lay"):
            kw[f.name] = seq([real(), real()])
        elif f.name == "gvthresh":
            kw[f.name] = seq([whole() for _ in range(4)])
        elif INTS[kind] is None or f.name in INTS[kind]:
            kw[f.name] = whole()
        else:
            kw[f.name] = real()
    return cls(**kw)


def conversions(out):
    import copy
    import dataclasses
    from pathlib import Path
    from openptv_python import parameters as pa
    rng = out.rng
    rounds = 40 if out.thorough else 5
    p = Path(out.dir) / "x.yaml"

    def val(r, err):
        return {"err": err} if err else flat(r)

    for it in range(rounds):
        for kind, cn in CLASSES.items():
            cls = getattr(pa, cn)
            for n in range(1, 5):
                obj = make(rng, kind, n)
                src = flat(obj)
                res = []
                d, err = out.call(cls.to_dict, obj, _desc=f"{cn} to_dict {src}")
                res += [["dictionary-differs", val(d, err)], ["source-changed", flat(obj)]]
                if rng.random() < .5 or err:
                    d = dataclasses.asdict(obj)
                b, err = out.call(cls.from_dict, d, _desc=f"{cn} from_dict {src}")
                res += [["object-from-dictionary-differs", val(b, err)], ["dictionary-changed", flat(d)], ["source-changed", flat(obj)]]
                if not err and not isinstance(b, cls):
                    res.append(["object-from-dictionary-differs", {"class": type(b).__name__}])
                if p.exists() and rng.random() < .5:
                    p.unlink()
                _, err = out.call(obj.to_yaml, rng.choice([p, str(p)]), _desc=f"{cn} to_yaml {src}")
                res += [["source-changed", flat(obj)]]
                if not err:
                    text = p.read_bytes()
                    b, err = out.call(cls.from_yaml, rng.choice([p, str(p)]), _desc=f"{cn} from_yaml {src}")
                    if p.read_bytes() != text:
                        res.append(["yaml-file-changed", {"-": "-"}])
                res += [["object-from-yaml-differs", val(b, err)]]
                if not err and (not isinstance(b, cls) or kind == "control" and not isinstance(b.mm, pa.MultimediaPar)):
                    res.append(["object-from-yaml-differs", {"class": type(b).__name__}])
                if kind == "track":
                    t, err = out.call(pa.convert_track_par_to_tuple, obj)
                    res += [["tuple-differs", val(t, err)], ["source-changed", flat(obj)]]
                    if not err:
                        res.append(["tuple-differs", {f: canon(getattr(t, f, "none")) for f in src}])
                out.rec("conversions", {"t": "same", "kind": kind, "n": n, "src": src, "res": res})
                # comparison: equal copies, and every single field different
                a = make(rng, kind, n, plain=True)
                pairs = [copy.deepcopy(a)]
                for addr in flat(a):
                    for _ in range(2):
                        pairs.append(change(rng, a, addr))
                if kind in ("sequence", "control", "calibration", "planes", "target", "volume", "media"):
                    pairs.append(longer(rng, a))
                for b in pairs:
                    fa, fb = flat(a), flat(b)
                    res = []
                    for x, y in ((a, b), (b, a)):
                        ways = [("equality", lambda x, y: x == y), ("inequality", lambda x, y: not (x != y))]  # noqa: E713
                        if kind in COMPARE:
                            ways.append((COMPARE[kind], getattr(pa, COMPARE[kind])))
                        for nm, w in ways:
                            r, err = out.call(w, x, y, _desc=f"{nm} {fa} {fb}")
                            res.append(["wrong-" + nm, "E" if err else "T" if r else "F"])
                    out.rec("conversions", {"t": "eq", "kind": kind, "a": fa, "b": fb, "res": res})
                    if flat(a) != fa or flat(b) != fb:
                        out.rec("conversions", {"t": "same", "kind": kind, "n": n, "src": fa, "res": [["comparison-changed-object", flat(a)]]})


def change(rng, a, addr):
    """A copy of a with another value at one address."""
    import copy
    b = copy.deepcopy(a)
    o = b
    w = addr.split(".")
    if w[0] == "mm":
        o, w = b.mm, w[1:]
    v = getattr(o, w[0])
    if len(w) == 2:
        lst = list(v)
        lst[int(w[1]) - 1] = other(rng, lst[int(w[1]) - 1], lst)
        setattr(o, w[0], lst)
    else:
        setattr(o, w[0], other(rng, v, []))
    return b


def other(rng, v, near):
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return rng.choice([v + "x", v.swapcase() if v.swapcase() != v else v + " ", v + " "])
    if isinstance(v, int):
        return v + rng.choice([1, -1, 256, 100000])
    w = rng.choice([v + 1, v * (1 + 1e-7) + 1e-9, -v if v else 3.0, v + 1000.5])
    return w if canon(w) != canon(v) else v + 17


def longer(rng, a):
    """A copy of a with one element more in some list."""
    import copy
    import dataclasses
    b = copy.deepcopy(a)
    o = b
    if hasattr(b, "mm") and rng.random() < .5:
        o = b.mm
    f = rng.choice([f.name for f in dataclasses.fields(o) if isinstance(getattr(o, f.name), list)])
    v = getattr(o, f)
    setattr(o, f, v[:-1] if rng.random() < .5 else v + [v[-1]])
    return b
