"""Process that imports the code under test, runs one driver function and records what it did."""
import contextlib
import importlib
import io
import json
import os
import random
import reprlib
import sys
import traceback


class Out:
    """Where a driver writes its records."""

    def __init__(self, spec):
        self.dir = spec["dir"]
        self.tier = spec["tier"]
        self.thorough = spec["tier"] == "thorough"
        self.seed = spec["seed"]
        self.prop = spec["prop"]
        self.args = spec["args"]
        self.files = {}
        self.counts = {}
        self.rng = random.Random(spec["seed"] * 1000003 + 17)
        self._prog = os.path.join(self.dir, "progress.json")

    def rec(self, stream, rec):
        f = self.files.get(stream)
        if f is None:
            f = self.files[stream] = open(os.path.join(self.dir, stream + ".ndjson"), "w")
        f.write(json.dumps(rec, separators=(",", ":")) + "\n")
        self.counts[stream] = self.counts.get(stream, 0) + 1

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def call(self, fn, *a, **k):
        """Call the code under test: (result, "") or (None, description of the exception)."""
        desc = k.pop("_desc", None)
        with open(self._prog, "w") as f:
            json.dump({"in_call": True, "function": getattr(fn, "__name__", str(fn)),
                       "desc": desc if desc is not None else reprlib.repr(a)}, f, default=str)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn(*a, **k)
            err = ""
        except Exception as e:  # noqa: BLE001
            r, err = None, type(e).__name__ + ": " + str(e)[:200]
        with open(self._prog, "w") as f:
            f.write('{"in_call": false}')
        return r, err

    def close(self):
        for f in self.files.values():
            f.close()
        with open(os.path.join(self.dir, "stats.json"), "w") as f:
            json.dump(self.counts, f)


def main():
    spec = json.load(open(sys.argv[1]))
    out = Out(spec)
    mod = importlib.import_module("groups." + spec["group"])
    import openptv_python
    got = os.path.realpath(openptv_python.__file__)
    want = os.path.realpath(os.path.join(spec["repo"], "openptv_python", "__init__.py"))
    assert got == want, (got, want)
    try:
        getattr(mod, spec["func"])(out)
    except ImportError:
        traceback.print_exc()
        sys.exit(9)
    except Exception:
        # the results of the code under test could not be interpreted
        traceback.print_exc()
        out.close()
        with open(out._prog, "w") as f:
            json.dump({"in_call": True, "unexpected_result": traceback.format_exc()[-3000:]}, f)
        sys.exit(8)
    out.close()


if __name__ == "__main__":
    main()
