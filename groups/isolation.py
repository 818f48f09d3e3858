"""C30: objects and calls do not influence each other."""
import copy
import hashlib
import os


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCObjectStore", "MCObjectStoreBig.cfg" if ctx.thorough else None, min_states=700, workers=2, timeout=3000)
    fs = [ctx.pool.submit(ctx.drive, "isolation", "histories", {"part": i, "parts": 3}) for i in range(3)]
    ds = [f.result() for f in fs]
    for d in ds:
        for k, v in ctx.stats(d).items():
            ctx.clauses[k] = ctx.clauses.get(k, 0) + v
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        p = os.path.join(ctx.scratch, "iso.ndjson")
        with open(p, "w") as o:
            for d in ds:
                o.write(open(os.path.join(d, "iso.ndjson")).read())
        ctx.validate(p, "TraceObjectStore", lambda c: {"C30"}, expect_min=60, label="objects and calls", timeout=2500)
    m.result()
    ctx.assumptions += ["lists that a caller passes to a constructor and changes afterwards are not covered"]


# ------------------------------------------------------------------- drivers
def near(v):
    """A result up to the last digits, which libraries may round differently each time."""
    return repr(round(float(f"{float(v):.9g}"), 6) + 0.0)


def digest(o, coarse=False):
    return hashlib.md5(plain(o, 0, coarse).encode()).hexdigest()[:12]


def plain(o, depth=0, coarse=False):
    """A text that determines the value of an object."""
    import dataclasses
    import numpy as np
    if depth > 12:
        return "..."
    if o is None or isinstance(o, (bool, str)):
        return repr(o)
    if isinstance(o, (int, np.integer)):
        return repr(int(o))
    if isinstance(o, (float, np.floating)):
        return near(o) if coarse else repr(float(o) + 0.0)
    if isinstance(o, (np.void, np.record)):
        return "{" + ",".join(f"{n}={plain(o[n], depth + 1, coarse)}" for n in o.dtype.names) + "}"
    if isinstance(o, np.ndarray):
        if o.dtype.names:
            return "rec" + str(o.shape) + "[" + ",".join(plain(v, depth + 1, coarse) for v in np.ravel(o)) + "]"
        if o.dtype.kind == "f" and coarse:
            return "arr" + str(o.shape) + "[" + ",".join(near(v) for v in o.ravel().tolist()) + "]"
        if o.dtype.kind in "fiub":
            return "arr" + str(o.shape) + hashlib.md5(np.ascontiguousarray(o, dtype=np.float64).__add__(0.0).tobytes()).hexdigest()
        return "arr" + str(o.shape) + "[" + ",".join(plain(v, depth + 1, coarse) for v in o.ravel().tolist()) + "]"
    if isinstance(o, dict):
        return "{" + ",".join(f"{k!r}:{plain(o[k], depth + 1, coarse)}" for k in sorted(o, key=str)) + "}"
    if isinstance(o, (list, tuple)) or type(o).__name__ == "deque":
        return "[" + ",".join(plain(v, depth + 1, coarse) for v in o) + "]"
    if dataclasses.is_dataclass(o) or hasattr(o, "__dict__"):
        return type(o).__name__ + "{" + ",".join(f"{k}:{plain(v, depth + 1, coarse)}" for k, v in sorted(vars(o).items())) + "}"
    return repr(o)


def places(o, path="", depth=0):
    """All places inside an object that can be changed: (path, function of a generator that changes it)."""
    import dataclasses
    import numpy as np
    res = []
    if depth > 4 or o is None:
        return res
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size and o.dtype.names:
            for n in o.dtype.names:
                def change(rng, o=o, n=n):
                    f = np.atleast_1d(o[n])
                    if f.size:
                        f.flat[rng.randrange(f.size)] = rng.randint(2, 99)
                        if np.ndim(o[n]) == 0:
                            o[n] = rng.randint(2, 99)
                res.append((path + "." + n, change))
        elif o.flags.writeable and o.size and o.dtype.kind in "fiu":
            def change(rng, o=o):
                o.flat[rng.randrange(o.size)] = rng.randint(2, 99)
            res.append((path + "[]", change))
    elif isinstance(o, (np.void, np.record)):
        for n in o.dtype.names:
            if np.ndim(o[n]):
                res += places(o[n], path + "." + n, depth + 1)
            else:
                def change(rng, o=o, n=n):
                    o[n] = rng.randint(2, 99)
                res.append((path + "." + n, change))
    elif isinstance(o, list):
        def grow(rng, o=o):
            o.append(copy.deepcopy(o[0]) if o else rng.randint(2, 99))
        res.append((path + "+", grow))
        if o and isinstance(o[0], (int, float, str)):
            def change(rng, o=o):
                o[rng.randrange(len(o))] = type(o[0])(rng.randint(2, 99))
            res.append((path + "[]", change))
        elif o:
            for i in {0, len(o) - 1}:
                res += places(o[i], f"{path}[{i}]", depth + 1)
    elif dataclasses.is_dataclass(o) or hasattr(o, "__dict__"):
        for k, v in sorted(vars(o).items()):
            if isinstance(v, (bool, int, float)):
                def change(rng, o=o, k=k, v=v):
                    setattr(o, k, type(v)(rng.randint(2, 99)) if not isinstance(v, bool) else not getattr(o, k))
                res.append((path + "." + k, change))
            else:
                res += places(v, path + "." + k, depth + 1)
    return res


def leaves(o, path="", depth=0):
    """The values of all places inside an object, by the names that places() gives them."""
    import dataclasses
    import numpy as np
    if depth > 4:
        return {}
    if isinstance(o, (np.ndarray, np.void, np.record)) and o.dtype.names:
        return {f"{path}.{n}": plain(o[n]) for n in o.dtype.names}
    res = {}
    if isinstance(o, list):
        res[path + "+"] = str(len(o))
        for i, v in enumerate(o[:40]):
            res.update(leaves(v, f"{path}[{i}]", depth + 1))
    elif dataclasses.is_dataclass(o) or hasattr(o, "__dict__"):
        for k, v in vars(o).items():
            res.update(leaves(v, f"{path}.{k}", depth + 1))
    else:
        res[path] = plain(o)
    return res


def elsewhere(before, after, way):
    """Places that changed although only one was meant to."""
    way = way.removesuffix("+").removesuffix("[]")
    return [p for p in sorted(before.keys() | after.keys()) if before.get(p) != after.get(p)
            and not (p == way or p.startswith((way + ".", way + "[", way + "+")))]


def histories(out):
    import random
    rng = random.Random(out.seed * 104729 + out.args["part"])
    objects(out, rng)
    calls(out, rng)


def objects(out, rng):
    import numpy as np
    from openptv_python import parameters as pa
    from openptv_python.calibration import Calibration
    from openptv_python.tracking_frame_buf import Frame, Pathinfo, Target
    names = [n for n in ("MultimediaPar", "SequencePar", "TrackPar", "VolumePar", "ControlPar", "TargetPar", "OrientPar",
                         "CalibrationPar", "MultiPlanesPar", "ExaminePar", "PftVersionPar") if hasattr(pa, n)]
    kinds = {n: getattr(pa, n) for n in names}
    kinds.update(Calibration=Calibration, Target=Target, Pathinfo=Pathinfo)
    kinds["Frame"] = lambda: Frame(2, 3)
    for it in range((1200 if out.thorough else 180) // out.args["parts"]):
        objs, kind, ops = [], [], []
        mine = rng.sample(sorted(kinds), rng.choice([1, 1, 2, 3]))
        if rng.random() < .4:
            mine = ["Calibration"] + mine[1:]
        shared = {"glass": np.array([1.0, 2.0, 50.0]), "pos": np.array([1.0, 2.0, 3.0]), "added": np.array([0, 0, 0, 0, 0, 1.0, 0]),
                  "ang": np.array([.1, .2, .3]), "prim": np.array([.1, .2, 60.0]), "dm": np.eye(3)}

        def snapshot():
            return [digest(o) for o in objs]
        for s in range(rng.randint(6, 26)):
            acts = ["new", "new", "change", "change", "change", "copy"] + (["give", "give", "caller"] if "Calibration" in mine else [])
            act = rng.choice(acts) if objs else "new"
            op = {"op": act, "err": "", "beyond": []}
            if act == "new" and len(objs) < 12:
                k = rng.choice(mine)
                o, op["err"] = out.call(kinds[k])
                op["kind"] = k
                objs.append(o)
                kind.append(k)
            elif act == "copy" and len(objs) < 12:
                i = rng.randrange(len(objs))
                o = objs[i]
                way = "deepcopy"
                if kind[i] in names and rng.random() < .7:
                    way = rng.choice(["dict", "dict", "yaml"])
                # a record as it is written and read is all the same to an independent copy
                if way == "dict":
                    r, op["err"] = out.call(lambda: kinds[kind[i]].from_dict(kinds[kind[i]].to_dict(o)))
                elif way == "yaml":
                    p = os.path.join(out.dir, "p.yaml")

                    def through():
                        o.to_yaml(p)
                        return kinds[kind[i]].from_yaml(p)
                    r, op["err"] = out.call(through)
                else:
                    r, op["err"] = out.call(copy.deepcopy, o)
                if op["err"]:                        # values that a change made unfit for the way
                    op["err"] = ""
                    r = copy.deepcopy(o)
                op["way"] = way
                objs.append(r)
                kind.append(kind[i])
            elif act == "give":
                # an object is given arrays that the caller keeps, and may give to others too
                cs = [i for i in range(len(objs)) if kind[i] == "Calibration"]
                if not cs:
                    continue
                i = rng.choice(cs)
                o = objs[i]
                op["on"] = i + 1
                w = rng.choice(["glass", "pos", "added", "ang", "prim", "dm"])
                fn = {"glass": o.set_glass_vec, "pos": o.set_pos, "added": o.set_added_par, "ang": o.set_angles,
                      "prim": o.set_primary_point, "dm": o.set_rotation_matrix}[w]
                arr = shared[w]
                was = digest(arr)
                _, op["err"] = out.call(fn, arr)
                op["kept"] = digest(arr) == was
                op["way"] = w
            elif act == "caller":
                # the caller goes on using an array of its own
                w = rng.choice(sorted(shared))
                shared[w].flat[rng.randrange(shared[w].size)] = rng.randint(2, 99)
                op["way"] = w
            elif act == "change":
                i = rng.randrange(len(objs))
                ps = places(objs[i])
                if not ps:
                    continue
                w, f = rng.choice(ps)
                op["on"], op["way"] = i + 1, w
                inside = leaves(objs[i])
                try:
                    f(rng)
                except Exception as e:  # noqa: BLE001
                    op["way"] += " " + type(e).__name__
                else:
                    op["beyond"] = elsewhere(inside, leaves(objs[i]), w)[:5]
            else:
                continue
            op["all"] = snapshot()
            ops.append(op)
            out.count("objects." + op["op"])
        out.rec("iso", {"t": "objects", "ops": ops})


def calls(out, rng):
    """Computations in an order of their own, each one again and again."""
    import numpy as np
    from groups.candidates import crd_of, scene
    from vlib import optics
    from openptv_python import correspondences as co, epi, find_candidate as fc, image_processing as ip, imgcoord as ic
    from openptv_python import multimed as mu, orientation as ori, ray_tracing as rt, segmentation as sg, sortgrid as so
    from openptv_python import track as tk, trafo as tf, vec_utils as vu
    from openptv_python.calibration import Calibration
    from openptv_python.constants import MAX_CANDS
    from openptv_python.parameters import ControlPar, OrientPar, TargetPar, VolumePar
    from openptv_python.tracking_frame_buf import Frame, Target, match_coords, matched_coords_as_arrays, get_by_pnrs
    from openptv_python import tracking_frame_buf as fb
    for it in range((240 if out.thorough else 36) // out.args["parts"]):
        ncam = rng.choice([2, 3, 4])
        cams, mm = scene(rng, ncam, rng.choice(["air", "water", "tilted"]))
        for c in cams:
            if rng.random() < .5:
                c["added"] = [rng.gauss(0, 1e-4), 0, 0, rng.gauss(0, 1e-5), rng.gauss(0, 1e-5), 1.0, 0.0]
        cals = [optics.make_cal(c) for c in cams]
        cpar = ControlPar(num_cams=ncam, imx=1280, imy=1024, pix_x=.012, pix_y=.012, mm=optics.make_mm(mm), hp_flag=1)
        half = rng.choice([60., 60., 4.])                # rays may enter beside the measured width
        vpar = VolumePar(x_lay=[-half, half], z_min_lay=[-30., -25.], z_max_lay=[30., 28.], cn=.1, cnx=.1, cny=.1, csumg=.1, eps0=.2, corrmin=30.)
        pts = np.array([[rng.uniform(-20, 20), rng.uniform(-20, 20), rng.uniform(-15, 15)] for _ in range(12)])
        det = []
        for c in cams:
            ts = []
            for i, p in enumerate(pts):
                x, y = optics.to_pixel(c, mm, p, 1280, 1024, .012)
                ts.append(Target(pnr=i, x=x, y=y, n=20, nx=5, ny=4, sumg=500, tnr=-1))
            det.append(sorted(ts, key=lambda t: t.y))
            for i, t in enumerate(det[-1]):
                t.pnr = i
        metric = np.array([[optics.project(c, mm, p) for c in cams] for p in pts])
        vert = [optics.trace(c, mm, *metric[0][i]) for i, c in enumerate(cams)]
        img = np.zeros((1024, 1280), dtype=np.uint8)
        for t in det[0]:
            img[max(0, int(t.y) - 2):int(t.y) + 3, max(0, int(t.x) - 2):int(t.x) + 3] = 120
        img[100:120, 200:260] = 50
        small = np.array([[rng.randint(0, 255) for _ in range(64)] for _ in range(48)], dtype=np.uint8)
        scp = ControlPar(num_cams=1, imx=64, imy=48, hp_flag=1)
        fil = np.array([[rng.randint(0, 255) for _ in range(64)] for _ in range(48)], dtype=np.uint8)
        tpar = TargetPar(gvthresh=[20, 20, 20, 20], discont=50, nnmin=2, nnmax=500, nxmin=1, nxmax=50, nymin=1, nymax=50, sumg_min=10)
        frm = Frame(ncam, 40)
        frm.targets = copy.deepcopy(det)
        frm.num_targets = [len(q) for q in det]
        matched = [match_coords(copy.deepcopy(q), cpar, c) for q, c in zip(det, cals)]
        mcal = copy.deepcopy(cals[0])
        mcal = mu.init_mmlut(vpar, cpar, mcal)
        from openptv_python.parameters import TrackParTuple
        bounds = TrackParTuple(-5, 5, -5, 5, -5, 5, 120, 5, 1, 0, 0, 0, 0)
        reg = np.array([(-1, 0, [0] * 4)] * (ncam * MAX_CANDS), dtype=tk.Foundpix_dtype).view(np.recarray) if hasattr(tk, "Foundpix_dtype") else None
        tex = [optics.to_pixel(c, mm, pts[0], 1280, 1024, .012) for c in cams]
        # name: (function, arguments, which of them may change)
        table = {
            "flat_image_coord": (ic.flat_image_coord, [pts[0], cals[0], cpar.mm], []),
            "img_coord": (ic.img_coord, [pts[1], cals[0], cpar.mm], []),
            "image_coordinates": (ic.image_coordinates, [pts, cals[1], cpar.mm], []),
            "flat_image_coordinates": (ic.flat_image_coordinates, [pts, cals[1], cpar.mm], []),
            "img_coord.lut": (ic.img_coord, [pts[1], mcal, cpar.mm], []),
            "ray_tracing": (rt.ray_tracing, [float(metric[0][0][0]), float(metric[0][0][1]), cals[0], cpar.mm], []),
            "point_position": (ori.point_position, [metric[0], ncam, cpar.mm, cals], []),
            "point_positions": (ori.point_positions, [metric, cpar.mm, cals, vpar], []),
            "single_cam": (ori.point_positions, [np.ascontiguousarray(metric[:, :1]), cpar.mm, cals[:1], vpar], []),
            "multi_cam": (ori.multi_cam_point_positions, [metric, cpar.mm, cals], []),
            "dumbbell": (ori.dumbbell_target_func, [metric[:2], cpar, cals, 25.0, .5], []),
            "skew_midpoint": (ori.skew_midpoint, [*vert[0], *vert[1]], []),
            "num_deriv": (ori.num_deriv_exterior, [copy.deepcopy(cals[0]), cpar, .01, .0001, pts[0]], []),
            "epi_mm": (epi.epi_mm, [float(metric[0][0][0]), float(metric[0][0][1]), cals[0], cals[1], cpar.mm, vpar], []),
            "epi_mm_2D": (epi.epi_mm_2D, [float(metric[0][0][0]), float(metric[0][0][1]), cals[0], cpar.mm, vpar], []),
            "epipolar_curve": (epi.epipolar_curve, [np.array(tex[0]), cals[0], cals[1], 5, cpar, vpar], []),
            "trans_cam_point": (mu.trans_cam_point, [cals[0].ext_par, cpar.mm, cals[0].glass_par, pts[0]], []),
            "move_along_ray": (mu.move_along_ray, [float(rng.randint(-20, 20)), vert[0][0], vert[0][1]], []),
            "multimed_nlay": (mu.multimed_nlay, [cals[0], cpar.mm, pts[0]], []),
            "mmlut": (mu.get_mmf_from_mmlut, [mcal, np.array([3.0, 4.0, -70.0])], []),
            "volumedimension": (mu.volumedimension, [0., 0., 0., 0., 0., 0., vpar, cpar, cals], []),
            "pixel_to_metric": (tf.pixel_to_metric, [tex[0][0], tex[0][1], cpar], []),
            "arr_metric_to_pixel": (tf.arr_metric_to_pixel, [np.ascontiguousarray(metric[:, 0]), cpar], []),
            "flat_to_dist": (tf.flat_to_dist, [3.0, -4.0, cals[0]], []),
            "dist_to_flat": (tf.dist_to_flat, [3.0, -4.0, cals[0]], []),
            "match_coords": (match_coords, [det[0], cpar, cals[0]], []),
            "as_arrays": (matched_coords_as_arrays, [matched[0]], []),
            "get_by_pnrs": (get_by_pnrs, [matched[0], np.array([3, 1, 5])], []),
            "py_correspondences": (co.py_correspondences, [copy.deepcopy(det), matched, cals, vpar, cpar], [0]),
            "match_pairs": (lambda m, f, v, c, k: co.match_pairs(k["lists"](), m, f, v, c, k["cals"]), [matched, frm, vpar, cpar, None], []),
            "sortgrid": (so.sortgrid, [cals[0], cpar, len(pts), pts, 25, det[0]], []),
            "nearest": (so.nearest_neighbour_pix, [det[0], tex[0][0], tex[0][1], 30.0], []),
            "match_detection": (ori.match_detection_to_ref, [cals[0], pts, det[0], cpar], []),
            "targ_rec": (sg.targ_rec, [img, tpar, 0, 1280, 0, 1024, cpar, 0], []),
            "target_recognition": (sg.target_recognition, [img, tpar, 0, cpar], []),
            "prepare_image": (ip.prepare_image, [small, 1, 0], []),
            "preprocess_image": (ip.preprocess_image, [small, 0, scp, 2], []),
            "copy_images": (ip.copy_images, [small], []),
            "subtract_mask": (ip.subtract_mask, [small, fil], []),
            "candsearch": (tk.candsearch_in_pix, [sorted(det[0], key=lambda t: t.y), len(det[0]), tex[0][0], tex[0][1], 40., 40., 40., 40., cpar], []),
            "candsearch_rest": (tk.candsearch_in_pix_rest, [det[0], len(det[0]), tex[0][0], tex[0][1], 40., 40., 40., 40., np.full(MAX_CANDS, -999), cpar], [8]),
            "searchquader": (tk.searchquader, [pts[0], bounds, cpar, cals], []),
            "pos3d_in_bounds": (tk.pos3d_in_bounds, [np.array([1., 2., 3.]), bounds], []),
            "angle_acc": (tk.angle_acc, [pts[0], pts[1], pts[2]], []),
            "search_center": (tk.search_volume_center_moving, [pts[0], pts[1]], []),
            "point_to_pixel": (tk.point_to_pixel, [pts[0], cals[0], cpar], []),
            "positions": (lambda f: (f.positions(), f.target_positions_for_camera(0)), [frm], []),
            "unit_vector": (vu.unit_vector, [pts[0]], []),
            "vec_diff_norm": (vu.vec_diff_norm, [pts[0], pts[1]], []),
            "vec_cross": (vu.vec_cross, [pts[0], pts[1]], []),
            "vec_copy": (vu.vec_copy, [pts[0]], []),
            "orient": (ori.full_calibration, [copy.deepcopy(cals[0]), np.array([[x, y, z] for x in (-30., 0., 25.) for y in (-30., 5., 30.) for z in (-10., 12.)]), None,
                                              cpar, OrientPar(ccflag=1)], [0]),
            "external": (ori.external_calibration, [copy.deepcopy(cals[1]), pts, None, cpar], [0]),
        }
        k = {"lists": lambda: co.safely_allocate_adjacency_lists(ncam, [len(q) for q in det]), "cals": cals}
        table["match_pairs"][1][4] = k
        o = table["orient"][1]
        o[2] = np.array([optics.to_pixel(cams[0], mm, p, 1280, 1024, .012) for p in o[1]])
        e = table["external"][1]
        e[2] = np.array([optics.to_pixel(cams[1], mm, p, 1280, 1024, .012) for p in pts])
        ops = []
        names = sorted(table)
        rng.shuffle(names)
        todo = names + [rng.choice(names) for _ in range(40)]
        fresh = {n: copy.deepcopy(table[n][1][0]) for n in ("orient", "external", "py_correspondences")}
        for n in todo:
            fn, args, may = table[n]
            if n in fresh:
                args[0] = copy.deepcopy(fresh[n])
            if n == "candsearch_rest":
                args[8] = np.full(MAX_CANDS, -999)

            def state():
                # numerical derivatives step forth and back: up to the last digits
                return [digest({kk: v for kk, v in a.items() if kk != "lists"} if isinstance(a, dict) else a, n == "num_deriv") for a in args]
            before = state()
            r, err = out.call(fn, *args, _desc=n)
            after = state()
            ops.append({"call": n, "key": n + ":" + "".join(b for i, b in enumerate(before)), "res": err[:60] if err else digest(r, True),
                        "before": before, "after": after, "may": [i + 1 for i in may], "raised": bool(err)})
            out.count("calls")
            if err:
                out.count("raised." + n)

        # a new object in between has the same default values
        out.rec("iso", {"t": "calls", "ops": ops, "new": [digest(Calibration()), digest(ControlPar()), digest(Frame(1, 1)), digest(VolumePar())]})
