"""Runs one check: drives the real code, runs TLC, collects verdicts, writes the evidence.

The parent process (this module) never imports the code under test.  It starts driver
processes (vlib/driver.py) that import openptv_python from /repo, call it and record
what it did as ndjson records, and TLC processes that model-check the specifications and
decide every record.
"""
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
DRIVE_TIMEOUT = int(os.environ.get("VERIF_DRIVE_TIMEOUT", "0"))


class Machinery(Exception):
    """Something other than the code under test went wrong."""


def driver_env(scratch):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8", "HOME": scratch, "TMPDIR": scratch,
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONUNBUFFERED": "1",
        "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "NUMBA_CPU_NAME": "generic", "NUMBA_CPU_FEATURES": "",
        "NUMBA_NUM_THREADS": "1",
        # a cache of its own: numba does not notice changes in a callee of another module
        "NUMBA_CACHE_DIR": os.path.join(scratch, "numba"),
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "PYTHONPATH": REPO + ":" + VERIF,
        "PYTHONWARNINGS": "ignore",
    }
    os.makedirs(env["NUMBA_CACHE_DIR"], exist_ok=True)
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    return env


class TlcResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.fails = []      # (record number, clause)
        self.infos = []      # strings printed with prefix INFO
        self.error = None    # text of an evaluation error
        self.inv = None      # violated invariant or property
        self.out = ""
        self.wall = 0.0


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.models = []
        self.streams = []
        self.clauses = {}
        self.fails = []       # dicts
        self.notes = []
        self.assumptions = []
        self._n = 0
        self.pool = ThreadPoolExecutor(8)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, mem="3g", timeout=600, simulate=None, label=None):
        self._n += 1
        meta = tempfile.mkdtemp(prefix="tlc.", dir=self.scratch)
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-deadlock", "-config", cfgp]
        if simulate:
            cmd += simulate
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        t = time.time()
        try:
            pr = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC on {module} took longer than {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = TlcResult()
        r.wall = time.time() - t
        r.out = pr.stdout
        for line in pr.stdout.splitlines():
            m = re.match(r'^"FAIL (\d+) (.*)"$', line)
            if m:
                r.fails.append((int(m.group(1)), m.group(2)))
                continue
            m = re.match(r'^"INFO (.*)"$', line)
            if m:
                r.infos.append(m.group(1).replace('\\"', '"'))
                continue
            m = re.match(r"^(\d+) states generated, (\d+) distinct states found", line)
            if m:
                r.generated, r.distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"^The number of states generated: (\d+)", line)
            if m:
                r.generated = r.distinct = int(m.group(1))
            m = re.match(r"^Error: (Invariant|Action property|Temporal properties|Assumption|Property)\s*(\S*)", line)
            if m and not r.inv:
                r.inv = line
        if pr.returncode != 0 and not r.inv:
            if "Parsing or semantic analysis failed" in pr.stdout:
                raise Machinery(f"{module}: {pr.stdout[-3000:]}")
            if pr.returncode in (75, 76, 77, 150, 151, 152) or "Evaluating" in pr.stdout or "Attempted to" in pr.stdout or "In evaluation" in pr.stdout or "Overflow" in pr.stdout:
                r.error = pr.stdout[-4000:]
                at = [m for m in re.finditer(r"^(?:/\\ )?pos = \d+", pr.stdout, re.M)]
                if at:
                    r.error += "\n" + pr.stdout[max(0, at[-1].start() - 1200):at[-1].end()]
            else:
                raise Machinery(f"TLC on {module} ended with {pr.returncode}:\n{pr.stdout[-3000:]}")
        return r

    def model(self, module, cfg=None, env=None, min_states=2, label=None, **kw):
        """Exhaustive (or simulated) check of a specification by itself."""
        r = self.tlc(module, cfg, env, **kw)
        name = label or (cfg or module)
        if r.inv or r.error:
            # the models do not depend on the code: a failure here is an error of the spec
            raise Machinery(f"model {name} fails:\n{r.out[-3000:]}")
        if r.distinct < min_states:
            raise Machinery(f"model {name} is vacuous: {r.distinct} states")
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": name, "distinct_states": r.distinct, "states_generated": r.generated,
                            "wall_s": round(r.wall, 1)})
        return r

    # --------------------------------------------------------------- driver
    def drive(self, group, func, args=None, timeout=None):
        """Run group.func(out, args) in a process that imports the code under test."""
        self._n += 1
        d = tempfile.mkdtemp(prefix=f"drv.{func}.", dir=self.scratch)
        spec = {"group": group, "func": func, "args": args or {}, "dir": d, "tier": self.tier,
                "seed": self.seed, "prop": self.prop, "repo": REPO}
        sp = os.path.join(d, "spec.json")
        json.dump(spec, open(sp, "w"))
        timeout = timeout or DRIVE_TIMEOUT or (420 if not self.thorough else 3000)
        log = open(os.path.join(d, "log"), "w")
        pr = subprocess.Popen([PY, "-m", "vlib.driver", sp], cwd=d, env=driver_env(self.scratch), stdout=log,
                              stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = pr.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, signal.SIGKILL)
            pr.wait()
            rc = "timeout"
        log.close()
        if rc != 0:
            prog = os.path.join(d, "progress.json")
            tail = open(os.path.join(d, "log"), errors="replace").read()[-3000:]
            incall = None
            if os.path.exists(prog):
                try:
                    incall = json.load(open(prog))
                except ValueError:
                    incall = None
            if incall and incall.get("in_call"):
                self.fail(None, "call-did-not-return", func,
                          {"ended": str(rc), "call": incall, "log": tail})
                return d
            raise Machinery(f"driver {group}.{func} ended with {rc}:\n{tail}")
        return d

    # ------------------------------------------------------------- verdicts
    def validate(self, trace, module, clause_props, cfg=None, label=None, expect_min=1, group_props=None, count=True,
                 timeout=600):
        """Let TLC decide each record of an ndjson file.

        clause_props: function from clause name to the set of properties it decides."""
        n = 0
        recs = []
        with open(trace) as f:
            for line in f:
                n += 1
                recs.append(line)
        if n < expect_min:
            if any(x.get("func") for x in self.fails):
                return None
            raise Machinery(f"stream {trace} has only {n} records")
        chunk = max(1, -(-n // 64))
        r = self.tlc(module, cfg, {"TRACE": trace, "CHUNK": chunk}, timeout=timeout)
        name = label or module
        by = {}
        for i, clause in r.fails:
            by.setdefault(i, []).append(clause)
        for i in sorted(by):
            for clause in by[i]:
                self.fail(clause_props(clause), clause, name, json.loads(recs[i - 1]))
        if r.error:
            ms = re.findall(r"^(?:/\\ )?pos = (\d+)", r.error, re.M)
            i = int(ms[-1]) if ms else 1
            self.fail(None, "record-outside-the-specification", name,
                      {"record": json.loads(recs[min(i, n) - 1]), "tlc": r.error[-2500:]})
        elif r.inv:
            raise Machinery(f"{module}: {r.inv}\n{r.out[-2000:]}")
        elif r.distinct < n:
            raise Machinery(f"{module}: {r.distinct} states for {n} records\n{r.out[-2000:]}")
        if count:
            self.traces += n
            self.states += r.distinct
            self.transitions += r.generated
            self.streams.append({"stream": name, "records": n, "wall_s": round(r.wall, 1)})
            for s in recs[:1] + recs[n // 2:n // 2 + 1]:
                s = json.loads(s)
                t = json.dumps(s)
                if len(t) < 3000 and len(self.samples) < 6:
                    self.samples.append({name: s})
                elif len(self.samples) < 6:
                    self.samples.append({name: t[:1500] + " ..."})
        return r

    def fail(self, props, clause, where, replay):
        self.fails.append({"props": sorted(props) if props is not None else None, "clause": clause,
                           "where": where, "func": where, "replay": replay})

    def stats(self, d):
        """Coverage counters written by a driver."""
        p = os.path.join(d, "stats.json")
        return json.load(open(p)) if os.path.exists(p) else {}


def known_findings():
    """Lines 'finding: property=<id> clause=<clause> match=<regex> | <text>' of the committed file."""
    res = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"^finding: property=(\S+) clause=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m:
                res.append(m.groups())
    return res


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2 and argv[2] in ("quick", "thorough"):
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vlib.registry import GROUPS
    if prop not in GROUPS:
        print(f"unknown property {prop}")
        return 2
    scratch = tempfile.mkdtemp(prefix="verif.", dir="/tmp")
    ctx = Ctx(prop, tier, seed, scratch)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    try:
        sys.path.insert(0, VERIF)
        mod = importlib.import_module("groups." + GROUPS[prop])
        mod.run(ctx)
    except Machinery as e:
        print(f"ERROR of the check: {e}")
        if not ctx.fails:
            return 3
    finally:
        ctx.pool.shutdown(wait=True, cancel_futures=True)
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return report(ctx, ev)


def report(ctx, ev):
    prop = ctx.prop
    mine = [f for f in ctx.fails if f["props"] is None or prop in f["props"]]
    other = [f for f in ctx.fails if not (f["props"] is None or prop in f["props"])]
    known = [k for k in known_findings() if k[0] == prop]
    new = []
    hit = set()
    for f in mine:
        txt = json.dumps(f["replay"])
        for k in known:
            if k[1] == f["clause"] and re.search(k[2], txt):
                hit.add(k)
                break
        else:
            new.append(f)
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {k[3]}")
    rc = 0
    if new:
        rdir = os.path.join(os.path.dirname(ev), "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{prop}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": ctx.seed, "tier": ctx.tier,
                       "how": f"VERIF_SEED={ctx.seed} VERIF_TIER={ctx.tier} ./run {prop}",
                       "violations": new[:20]}, f, indent=1)
        seen = {}
        for f in new:
            seen.setdefault((f["where"], f["clause"]), []).append(f)
        for (w, c), fs in sorted(seen.items()):
            print(f"  {w}: {c} ({len(fs)} records)")
        print(f"VIOLATION property={prop} replay={rp}")
        rc = 1
    for f in {(f["where"], f["clause"]) for f in other}:
        print(f"  (clause of another property: {f[0]}: {f[1]})")
    from vlib.registry import LEVEL
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples or ["none"],
           "models": ctx.models, "streams": ctx.streams, "notes": ctx.notes,
           "driver_counters": ctx.clauses}
    with open(ev, "w") as f:
        json.dump({"property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": LEVEL.get(prop, "model_checking"),
                   "coverage": cov, "assumptions": ctx.assumptions,
                   "wall_s": round(time.time() - ctx.t0, 1), "violations": len(new)}, f, indent=1)
    print(f"{prop}: {'violated' if rc else 'held'}; {ctx.traces} records of the real code, "
          f"{ctx.states} states, {time.time() - ctx.t0:.1f} s")
    return rc
