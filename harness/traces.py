"""Checks recordings against a trace specification, with TLC."""

import json
import os
import re
import tempfile

import tlc
import validate


def judge(module, traces, extra=None, workers=2, heap="3g", timeout=400,
          env=None):
    """-> (states, [None or (event number, why, ids)])"""
    data = dict(extra or {}, traces=traces)
    fd, path = tempfile.mkstemp(prefix="paf-%s-" % module, suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(data, f)
        e = {"PAF_TRACES": path}
        e.update(env or {})
        out, rc = tlc.run(module, module + ".cfg", env=e, workers=workers,
                          heap=heap, timeout=timeout)
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError(out[max(0, out.find("Error:")):][:5000])
    res = [validate.Outcome() for _ in traces]
    for ln in validate.unwrap(out):
        m = validate.HEAD.match(ln)
        if not m:
            raise tlc.TlcError("cannot parse: %s" % ln[:500])
        o = res[int(m.group(2)) - 1]
        if m.group(1) == "END":
            o.ended = True
        else:
            body = m.group(4).strip()
            mi = validate.IDS.search(body)
            o.bad.append((int(m.group(3)), body[:mi.start()].strip(" ,"),
                          set(re.findall(r'"([^"]*)"', mi.group(1)))))
    vs = []
    for o in res:
        if not o.ended and not o.bad:
            raise tlc.TlcError("no verdict\n%s" % out[-3000:])
        v = validate.verdict([o])
        vs.append(v[1:] if v else None)
    return tlc.stats(out), vs
