"""The checks: python check.py PROPERTY (with VERIF_TIER and VERIF_SEED)"""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import fakeenv
fakeenv.install()

import core
from plan import PLAN, ASSUMPTIONS


def known_findings(prop):
    path = os.path.join(core.VERIF, "known_findings.txt")
    res = []
    for ln in open(path):
        ln = ln.strip()
        if ln.startswith("known: property=%s " % prop):
            res.append(ln[len("known: "):])
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = fakeenv.real_time()
    ctx = core.Ctx(prop, tier, seed)
    try:
        PLAN[prop](ctx)
    except core.MachineryError as e:
        print("ERROR: the check itself failed:\n%s" % e)
        return 2
    core.finish(ctx, t0, "model_checking", ASSUMPTIONS.get(prop, []) +
                ASSUMPTIONS[""])
    n = ctx.cov.n
    print("%s (%s, seed %d): %d states and %d transitions of the "
          "specification explored, %d executions of the real code accepted, "
          "%.0f s" % (prop, tier, seed, n.get("states", 0),
                      n.get("transitions", 0),
                      n.get("traces_validated_against_impl", 0),
                      fakeenv.real_time() - t0))
    if ctx.elsewhere:
        print("%d disagreements concern other properties" % ctx.elsewhere)
    for k in known_findings(prop):
        print("KNOWN-FINDING: %s" % k)
    if ctx.violations:
        for k, v in enumerate(ctx.violations[:5]):
            path = core.write_replay(ctx, k, v)
            print("  " + v.what[:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
