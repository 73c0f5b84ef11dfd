"""All kinds of scenarios for the server, a few of each: exit 1 at the first
disagreement with the specification.  For sensitivity studies (mutate.py)."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "harness"))
sys.dont_write_bytecode = True

import fakeenv
fakeenv.install()

import core
import corpus
import gen
import wiregen
from plan import SERVER

seed = int(os.environ.get("VERIF_SEED", "1"))
each = int(os.environ.get("PROBE_EACH", "60"))


def batches():
    small = [sc for sc in corpus.scenarios()
             if "many" not in sc["name"]]
    yield small
    yield wiregen.scenarios(seed, share=0.12)
    for rnd in range(2):
        for p in sorted(SERVER):
            n = each if p != "C15" else each // 3
            yield [gen.scenario(p, seed * 1000000 + rnd * 1000 + i, 40)
                   for i in range(n)]
    for sc in corpus.scenarios():
        if "many" in sc["name"]:
            yield [sc]


for b in batches():
    cov, viol = core.server_job(b)
    if viol:
        print("VIOLATION")
        print("  %s %s" % (",".join(sorted(viol[0].ids)), viol[0].what))
        sys.exit(1)
print("nothing found")
