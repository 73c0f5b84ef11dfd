"""Shows a reported violation again: python replay.py FILE [EVENTS]"""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakeenv
fakeenv.install()


def server(d, n):
    import norm
    import srvrun
    import validate
    sc = d["scenario"]
    r = srvrun.run_scenario(sc)
    res, st, out = validate.validate([(sc, r.trace)])
    v = validate.verdict(res[0])
    print("scenario:", json.dumps({k: sc[k] for k in sc if k != "steps"}))
    tr = norm.normalise(sc, r.trace, norm.Pools())[v[0] if v else 0]["ev"]
    pos = v[1] if v else len(tr)
    for i, ev in enumerate(tr[:pos], 1):
        if i > pos - n:
            print(i, json.dumps(ev))
    if r.tb:
        print(r.tb)
    if v is None:
        print("accepted")
        return 0
    print("event %d not allowed: %s\nconcerns %s" % (v[1], v[2],
                                                     sorted(v[3])))
    return 1


def main():
    d = json.load(open(sys.argv[1]))
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 30
    kind = d["kind"]
    if kind == "server":
        return server(d, n)
    mod = __import__(kind)
    return mod.replay(d, n)


if __name__ == "__main__":
    sys.exit(main())
