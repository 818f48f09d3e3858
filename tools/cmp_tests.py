"""Compare a test result file with the stable tests of the baseline."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json"))
try:
    r = json.load(open(sys.argv[1]))
except OSError:
    print("no results"); sys.exit()
def passed(d):
    if isinstance(d.get("passed"), list):
        return set(d["passed"])
    t = d.get("tests", d)
    if isinstance(t, dict):
        return {k for k, v in t.items() if v in ("passed", "pass", True)}
    return {x["id"] for x in t if x.get("outcome", x.get("status")) in ("passed", "pass")}
stable = b.get("stable_passed") or b.get("stable") or passed(b)
miss = set(stable) - passed(r)
print("ok" if not miss else "BROKEN: " + ", ".join(sorted(miss)[:5]))
