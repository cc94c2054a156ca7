"""Lists which functions of /repo/src are under contract (all units) and which are not."""
import glob, os
from common import *
import rustlex as R, vunit as V

def main():
    have = {}
    for n in V.units():
        u = V.Unit(n)
        for p in u.fns():
            have.setdefault((p["file"], R.norm(p["impl"]), p["fn"]), []).append(n)
    tot = cov = 0
    for f in sorted(glob.glob(os.path.join(REPO, "src/**/*.rs"), recursive=True)):
        rel = os.path.relpath(f, REPO)
        out, n, c = [], 0, 0
        for it in V.repo_items(rel):
            if "#[test]" in it.attrs:
                continue
            n += 1
            if (rel, R.norm(it.impl), it.name) in have:
                c += 1
            else:
                out.append("%s :: %s" % (R.norm(it.impl), it.name))
        tot += n; cov += c
        print("%s: %d of %d under contract" % (rel, c, n))
        for o in out:
            print("    not: " + o)
    print("total: %d of %d" % (cov, tot))
main()
