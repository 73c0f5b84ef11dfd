"""Checks recorded traces against the specification, with TLC."""

import json
import os
import re
import tempfile

import norm
import tlc

LINE = re.compile(r'^<<"(END|MISMATCH)", (.*)>>\s*$')


class Outcome:
    def __init__(self):
        self.ended = False
        self.bad = []          # (event number, why, ids)


def unwrap(out):
    """TLC breaks long values over several lines"""
    lines = []
    cur = None
    depth = 0
    for ln in out.split("\n"):
        if cur is None:
            if ln.startswith('<<"END"') or ln.startswith('<<"MISMATCH"') or \
               ln.startswith('<< "MISMATCH"') or ln.startswith('<< "END"'):
                cur = ln
            else:
                continue
        else:
            cur += " " + ln.strip()
        depth = cur.count("<<") - cur.count(">>")
        if depth <= 0:
            lines.append(cur)
            cur = None
    return lines


HEAD = re.compile(r'^<<\s*"(END|MISMATCH)",\s*(\d+)(?:,\s*(\d+),\s*(.*))?>>$')
IDS = re.compile(r"\{([^{}]*)\}\s*$")


def validate(batch, workers=8, heap="8g", timeout=800, keep=None):
    """batch: list of (scenario, trace).  Returns a list of lists of Outcomes
    (one for each domain) and TLC's statistics."""
    pools = norm.Pools()
    traces = []
    where = []
    for n, (sc, tr) in enumerate(batch):
        for d, t in enumerate(norm.normalise(sc, tr, pools)):
            traces.append(t)
            where.append((n, d))
    data = {"traces": traces, "filters": pools.filters.items,
            "props": pools.props.items}
    fd, path = tempfile.mkstemp(prefix="paf-traces-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(data, f)
        if keep:
            with open(keep, "w") as f:
                json.dump(data, f)
        out, rc = tlc.run("PafTrace", "PafTrace.cfg",
                          env={"PAF_TRACES": path}, workers=workers,
                          heap=heap, timeout=timeout)
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError(out[max(0, out.find("Error:")):][:5000])
    res = [[] for _ in batch]
    for (n, d) in where:
        res[n].append(Outcome())
    for ln in unwrap(out):
        m = HEAD.match(ln)
        if not m:
            raise tlc.TlcError("cannot parse: %s" % ln[:500])
        n, d = where[int(m.group(2)) - 1]
        o = res[n][d]
        if m.group(1) == "END":
            o.ended = True
        else:
            body = m.group(4).strip()
            mi = IDS.search(body)
            ids = set(re.findall(r'"([^"]*)"', mi.group(1)))
            o.bad.append((int(m.group(3)), body[:mi.start()].strip(" ,"),
                          ids))
    for n, os_ in enumerate(res):
        for o in os_:
            if not o.ended and not o.bad:
                raise tlc.TlcError("no verdict for trace %d\n%s" %
                                   (n, out[-3000:]))
    return res, tlc.stats(out), out


def verdict(outcomes):
    """None if accepted, else (domain, event number, why, ids)"""
    for d, o in enumerate(outcomes):
        if not o.ended:
            pos = max(b[0] for b in o.bad)
            at = [b for b in o.bad if b[0] == pos]
            ids = set()
            for b in at:
                ids |= b[2]
            return d, pos, at[0][1], ids
    return None
