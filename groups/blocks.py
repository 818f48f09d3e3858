"""C34: calibration block files, the four points chosen per camera, the search radius of the sorting."""
import math
import os


def run(ctx):
    m = ctx.pool.submit(ctx.model, "MCBlocks", "MCBlocksBig.cfg" if ctx.thorough else None, min_states=5000, workers=3, timeout=3000)
    d = ctx.drive("blocks", "read")
    ctx.clauses.update(ctx.stats(d))
    if not any(x["clause"] == "call-did-not-return" for x in ctx.fails):
        ctx.validate(os.path.join(d, "blk.ndjson"), "TraceBlocks", lambda c: {"C34"}, expect_min=300,
                     label="block files and choices of points", timeout=2500)
    m.result()
    ctx.assumptions += ["block files have no empty lines between or after the points"]


# ------------------------------------------------------------------- drivers
def s(v):
    f = float(v)
    if math.isfinite(f) and f == int(f) and abs(f) < 1e15:
        return str(int(f))
    return repr(f)


def number(rng):
    z = rng.random()
    if z < .4:
        return rng.choice([0, -1, 1, 25, -40, 40, rng.randint(-200, 200)])
    return rng.choice([rng.uniform(-300, 300), rng.uniform(-1, 1), round(rng.uniform(-99, 99), 2), 1e-7, -1.5e3])


def text_of(rng, v):
    if isinstance(v, int):
        return rng.choice([str(v), f"{v}.0", f"{v:+d}" if v else "0"])
    return rng.choice([repr(v), repr(v), f"{v:.17g}", f"{v:.17e}"])


def block(rng, path, bad):
    """Writes a block; returns its lines as the specification sees them."""
    n = rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, rng.randint(4, 30)])
    ids = list(range(1, n + 1))
    if rng.random() < .4:
        rng.shuffle(ids)
    if rng.random() < .3:
        ids = [i + rng.choice([0, 100, 1000]) for i in ids]
    lines, text = [], []
    wrong = rng.randrange(n) if n and bad else -1
    for i in range(n):
        v = [number(rng) for _ in range(3)]
        tok = [str(ids[i])] + [text_of(rng, x) for x in v]
        if i == wrong:
            z = rng.choice(["word", "few", "few", "id", "comma"])
            if z == "word":
                tok[rng.randint(1, 3)] = "x"
            elif z == "few":
                tok = tok[:rng.randint(1, 3)]
            elif z == "id":
                tok[0] = "1.5"
            else:
                tok = [",".join(tok)]
        lines.append({"ok": i != wrong, "v": [str(ids[i])] + [s(x) for x in v]})
        sep = rng.choice([" ", "\t", "     "])
        text.append(rng.choice(["", "   "]) + sep.join(tok) + rng.choice(["", "", "  "]))
    nl = rng.choice(["\n", "\n", "\r\n"])
    with open(path, "w", newline="") as f:
        f.write(nl.join(text) + (nl if rng.random() < .7 and n else ""))
    return lines


def rows(r):
    import numpy as np
    a = np.asarray(r)
    if a.dtype.names:
        return [[str(int(q["pnr"]))] + [s(q[c]) for c in "xyz"] for q in a.reshape(-1)]
    return [[s(v) for v in row] for row in a.reshape(-1, 3)]


def read(out):
    from pathlib import Path
    from openptv_python import orientation as ori
    from openptv_python import sortgrid as sg
    rng = out.rng
    d = Path(out.dir)
    for it in range(2500 if out.thorough else 300):
        path, choice = d / "block.txt", d / "man_ori.par"
        lines = block(rng, path, rng.random() < .15)
        name = rng.choice([path, str(path)])
        r, err = out.call(sg.read_calblock, name)
        res, e = decode(rows, r, err)
        out.rec("blk", {"t": "block", "lines": lines, "res": res, "err": e})
        n = len(lines)
        r, err = out.call(ori.read_calblock, name)
        if not err and int(r[1]) != len(r[0]):
            err = "count"
        res, e = decode(rows, r[0] if r else None, err)
        out.rec("blk", {"t": "places", "lines": lines, "res": res, "err": e})
        cams = rng.randint(1, 4)
        numbers = []
        for _ in range(cams):
            z = rng.choice(["good", "good", "good", "good", "twice", "beyond", "ids"])
            nr = rng.sample(range(1, n + 1), 4) if n >= 4 else [rng.randint(1, 5) for _ in range(4)]
            if z == "twice":
                nr[rng.randrange(1, 4)] = nr[0]
            elif z == "beyond":
                nr[rng.randrange(4)] = rng.choice([0, n + 1, n + 2])
            numbers += nr
        form = rng.choice(["line", "four", "four"])
        with open(choice, "w", newline="") as f:
            nl = rng.choice(["\n", "\r\n"])
            per = 1 if form == "line" else 4
            f.write(nl.join(" ".join(str(v) for v in numbers[i:i + per]) for i in range(0, 4 * cams, per)) + rng.choice(["", nl]))
        for cam in range(cams):
            r, err = out.call(ori.read_man_ori_fix, name, rng.choice([choice, str(choice)]), cam)
            res, e = decode(rows, r, err) if r is not None else ([], err)
            out.rec("blk", {"t": "four", "lines": lines, "numbers": numbers, "cam": cam, "res": res, "err": e})
            out.count("four." + ("some" if res else "none"))
        p = d / "sortgrid.par"
        given = str(rng.choice([0, 1, 10, 25, 120, rng.randint(0, 500)])) if rng.random() < .8 else ""
        if given:
            p.write_text(given + rng.choice(["", "\n", "\n7\n"]))
        elif p.exists():
            p.unlink()
        r, err = out.call(sg.read_sortgrid_par, rng.choice([p, str(p)]))
        out.rec("blk", {"t": "radius", "given": given, "res": s(r) if not err else "", "err": err})
    r, err = out.call(sg.read_calblock, d / "missing.txt")
    res, e = decode(rows, r, err)
    out.rec("blk", {"t": "block", "lines": [], "res": res, "err": e})


def decode(f, r, err):
    if err:
        return [], err
    try:
        return f(r), ""
    except (TypeError, ValueError, KeyError) as e:
        return [], "result: " + str(e)
