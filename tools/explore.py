"""The bounded companion: runs the real crate on enumerated and random cases of one property."""
import os, re, time
from common import *

# property -> variants it is explored in
PLAN = {
    "C01": ["tree", "hash"], "C02": ["tree", "hash"], "C03": ["tree", "hash", "hashbrown"], "C04": ["tree", "hash"],
    "C05": ["tree", "hash"], "C06": ["tree", "hash", "hashbrown"], "C07": ["tree", "hash"], "C08": ["hash", "hashbrown"],
    "C09": ["tree", "hash"], "C10": ["tree", "hash"], "C11": ["tree"], "C12": ["inspect"], "C13": ["tree"], "C14": ["tree"],
    "C15": ["tree"], "C16": ["tree"], "C17": ["tree"], "C18": ["tree"], "C19": ["tree"], "C20": ["tree", "hash"],
}


class BuildError(Exception):
    pass


def run_variant(binary, prop, seed, ms, scale):
    """Returns (evaluations, distinct, samples, [(index, description, message)])."""
    cmd = [binary, prop, "--seed", str(seed), "--ms", str(ms), "--scale", str(scale)]
    limit = ms / 1000 * 3 + 40
    rc, o, r = sh(cmd, timeout=limit)
    ev = di = 0
    samples, fails = [], []
    for l in o.splitlines():
        if l.startswith("EVALS "):
            _, a, b, _c = l.split()
            ev, di = int(a), int(b)
        elif l.startswith("SAMPLE "):
            samples.append(l[7:])
        elif l.startswith("FAIL "):
            i, d, m = l[5:].split("\t", 2)
            fails.append((int(i), d, m))
    if rc in (0, 1) and (rc == 1) == bool(fails):
        return ev, di, samples, fails
    # it crashed, aborted or hung: find the case
    trace = os.path.join(os.path.dirname(binary), "trace-%s" % prop)
    rc2, o2, r2 = sh(cmd + ["--trace"], timeout=limit * 2, errfile=trace)
    cases = re.findall(r"^CASE (\d+) (.*)$", r2, re.M)
    os.unlink(trace)
    if cases:
        i, d = cases[-1]
        rc3, o3, r3 = sh(cmd + ["--only", i], timeout=30)
        how = "did not return within 30 s" if rc3 is None else "ended the process (exit status %s): %s" % (rc3, r3.strip()[-200:])
        if rc3 == 0:  # not reproducible alone
            how = "ended the process when run after the cases before it (exit status %s): %s" % (rc2, r2.strip()[-200:])
            if rc2 == 0:
                return ev, di, samples, []
        return int(i), int(i), samples, [(int(i), d, how)]
    raise BuildError("the explorer ended with status %s: %s" % (rc, r[-500:]))


def explore(prop, seed, ms, scale):
    """Runs all variants of a property. Returns a result dictionary."""
    res = {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "variants": [], "notes": []}
    for v in PLAN[prop]:
        binary, log = build_explorer(v)
        if binary is None and v == "inspect":
            res["notes"].append("the inspector does not fit the changed node layout; explored without it")
            v = "tree"
            binary, log = build_explorer(v)
        if binary is None:
            raise BuildError("building the explorer (%s) failed:\n%s" % (v, log))
        ev, di, sa, fa = run_variant(binary, prop, seed, ms, scale)
        res["evaluations"] += ev
        res["distinct"] += di
        res["samples"] += ["[%s] %s" % (v, s) for s in sa]
        res["variants"].append("%s: %s, features %s" % (v, VARIANTS[v][0], "+".join(VARIANTS[v][1])))
        res["fails"] += [(v, i, d, m) for (i, d, m) in fa]
        if fa:
            break
    return res


def replay(variant, prop, seed, scale, index):
    binary, log = build_explorer(variant)
    if binary is None:
        raise BuildError(log)
    return sh([binary, prop, "--seed", str(seed), "--scale", str(scale), "--only", str(index)], timeout=120)
