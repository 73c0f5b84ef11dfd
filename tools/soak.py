"""Development aid: run many random scenarios, print every disagreement.
soak.py N OFFSET PROFILE..."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "harness"))
import fakeenv
fakeenv.install()
import core

n, off = int(sys.argv[1]), int(sys.argv[2])
length = int(os.environ.get("LEN", "40"))
for prof in sys.argv[3:]:
    t = fakeenv.real_time()
    ctx = core.Ctx("NONE", "quick", off)
    found = []
    orig = core._call
    size = 40 if prof == "C15" else 200
    jobs = [(core.job_random, (prof, off + i, min(size, n - i), 0, length))
            for i in range(0, n, size)]
    import multiprocessing
    with multiprocessing.get_context("fork").Pool(4, maxtasksperchild=1) as p:
        for cov, viol, err in p.imap_unordered(core._call, jobs):
            if err:
                print(err[-3000:])
                continue
            ctx.cov.merge(cov)
            found += viol
    print(prof, ctx.cov.n.get("traces_validated_against_impl"),
          "bad", len(found), "%.0f s" % (fakeenv.real_time() - t), flush=True)
    for k, v in enumerate(found[:4]):
        print("  ", sorted(v.ids), v.what[:300])
        with open("/tmp/soak-%s-%d.json" % (prof, k), "w") as f:
            json.dump(v.replay, f, default=repr)
