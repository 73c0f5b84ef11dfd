"""What the filter implementation does with strings, judged by Filter.tla."""

import itertools
import json
import os
import random
import re
import signal
import sys
import tempfile

import core
import tlaval
import tlc

ALPHABET = "()*\\&|!=><a1-"


class Hang(BaseException):
    pass


def _alarm(signo, frame):
    raise Hang()


# ---------------------------------------------------------------- real code

def attempt(text, props):
    """-> (out, matches, printed, rout, matches of the reparsed one)"""
    import paf.filter
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(20)
    try:
        try:
            f = paf.filter.parse(text)
        except paf.filter.ParseError as e:
            str(e)
            return "refused", [], "", "refused", []
        m = [f.match(p) for p in props]
        if not all(isinstance(x, bool) for x in m):
            return "crash", [], "match returned %r" % m, "refused", []
        s = str(f)
        try:
            g = paf.filter.parse(s)
        except paf.filter.ParseError:
            return "ok", m, s, "refused", []
        return "ok", m, s, "ok", [g.match(p) for p in props]
    except (Exception, Hang) as e:
        return "crash", [], repr(e)[:200], "refused", []
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def codes(s):
    return [ord(c) for c in s]


def nesting(s):
    d = top = 0
    for c in s:
        if c == "(":
            d += 1
            top = max(top, d)
        elif c == ")":
            d -= 1
    return top


def flat(p):
    res = []
    for k in p:
        for v in p[k]:
            res.append({"k": codes(k), "t": "s" if isinstance(v, str) else
                        "i", "v": codes(str(v))})
    return res


def judge(cases, workers=2):
    """cases: list of (string, list of property dicts).  Returns
    (number of states, [(case, why, what the code did)])"""
    pool = {}
    props = []
    out = []
    raw = []
    for text, ps in cases:
        idx = []
        for p in ps:
            key = repr(sorted((k, sorted(map(repr, v))) for k, v in
                              p.items()))
            if key not in pool:
                props.append(flat(p))
                pool[key] = len(props)
            idx.append(pool[key])
        o = attempt(text, ps)
        raw.append(o)
        nest = nesting(text)
        out.append({"s": codes(text) if nest < 300 else [], "nest": nest,
                    "out": o[0], "ps": idx, "m": o[1],
                    "str": codes(o[2]) if o[0] == "ok" else [],
                    "rout": o[3], "rm": o[4]})
    fd, path = tempfile.mkstemp(prefix="paf-filter-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"cases": out, "props": props or [[]]}, f)
        txt, rc = tlc.run("FilterTrace", "FilterTrace.cfg",
                          env={"PAF_CASES": path}, workers=workers,
                          heap="3g")
    finally:
        os.unlink(path)
    if rc != 0:
        raise tlc.TlcError(txt[-3000:])
    bad = []
    for m in re.finditer(r'<<\s*"CASE",\s*(\d+),\s*"([^"]*)"\s*>>', txt):
        i = int(m.group(1)) - 1
        bad.append((cases[i], m.group(2), raw[i]))
    return tlc.stats(txt), bad, raw


# --------------------------------------------------------------- generation

KEYS = ["a", "b", "name", "x=y", "*", "é", "a b", "!", "k\\", "\U0001f600",
        "(", "\n", "1"]
CHARS = "ab1*\\()&|=><! é-x\U0001f600\t0"
INTS = [0, 1, -1, 5, 10, 9, -10, 99, 100, 2 ** 31, 2 ** 63, -2 ** 63,
        2 ** 63 - 1, 10 ** 30, -10 ** 30, 10 ** 30 + 1]
SPECIALS = "()*\\&|=><"


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def word(self, lo=1, hi=4):
        r = self.r
        n = r.randint(lo, hi)
        if r.random() < 0.6:
            return "".join(r.choice("ab") for _ in range(n))
        return "".join(r.choice(CHARS) for _ in range(n))

    def esc(self, s):
        out = ""
        for c in s:
            if c in SPECIALS or (c == "!" and self.r.random() < 0.5):
                out += "\\"
            out += c
        # an unescaped "!" must not come first in the expression
        return "\\" + out if out.startswith("!") else out

    def integer(self):
        r = self.r
        v = r.choice(INTS) if r.random() < 0.7 else r.randint(-20, 20)
        s = str(v)
        x = r.random()
        if x < 0.08:
            s = s.replace("-", "")
            s = ("-" if v < 0 else "") + "0" * r.randint(1, 3) + s
        elif x < 0.1:
            s = "-0"
        elif x < 0.12:
            s = ("-" if r.random() < 0.5 else "") + "7" * 400
        return s

    def leaf(self):
        r = self.r
        k = r.choice(KEYS) if r.random() < 0.8 else self.word()
        x = r.random()
        if x < 0.15:
            return ("present", k)
        if x < 0.4:
            return ("eq", k, r.choice([self.word(), self.integer(),
                                       str(r.randint(-3, 3))]))
        if x < 0.6:
            return (r.choice(["gt", "lt"]), k, self.integer())
        n = r.choice([0, 0, 1, 1, 2, 3])
        small = r.random() < 0.7
        w = (lambda: "".join(r.choice("ab") for _ in range(r.randint(1, 2)))
             ) if small else self.word
        ini = w() if r.random() < 0.5 else ""
        fin = w() if r.random() < 0.5 else ""
        if not n and not ini and not fin:
            fin = "a"
        return ("sub", k, ini, [w() for _ in range(n)], fin)

    def tree(self, depth):
        r = self.r
        if depth == 0 or r.random() < 0.4:
            return self.leaf()
        x = r.random()
        if x < 0.3:
            return ("not", [self.tree(depth - 1)])
        return ("and" if x < 0.65 else "or",
                [self.tree(depth - 1) for _ in range(r.choice([2, 2, 2, 3,
                                                               5]))])

    def text(self, t):
        op = t[0]
        if op in ("not", "and", "or"):
            return "(" + {"not": "!", "and": "&", "or": "|"}[op] + \
                "".join(self.text(x) for x in t[1]) + ")"
        k = self.esc(t[1])
        if op == "present":
            return "(%s=*)" % k
        if op == "eq":
            return "(%s=%s)" % (k, self.esc(t[2]))
        if op in ("gt", "lt"):
            return "(%s%s%s)" % (k, "><"[op == "lt"], t[2])
        return "(%s=%s*%s%s)" % (k, self.esc(t[2]), "".join(
            self.esc(x) + "*" for x in t[3]), self.esc(t[4]))

    def leaves(self, t):
        if t[0] in ("not", "and", "or"):
            return [y for x in t[1] for y in self.leaves(x)]
        return [t]

    def values(self, leaf):
        """values for which the leaf is likely to be nearly (un)true"""
        r = self.r
        op = leaf[0]
        if op == "present":
            return [self.word(), r.choice(INTS)]
        if op == "eq":
            res = [leaf[2], leaf[2] + "a", leaf[2][1:] or "z"]
            try:
                res.append(int(leaf[2]))
            except ValueError:
                pass
            return res
        if op in ("gt", "lt"):
            v = int(leaf[2])
            return [v - 1, v, v + 1, str(v + 1), str(v - 1), -v, v * 10]
        parts = [leaf[2]] + leaf[3] + [leaf[4]]
        res = []
        for _ in range(4):
            ps = list(parts)
            x = r.random()
            if x < 0.2:
                ps.pop(r.randrange(len(ps)))
            elif x < 0.3:
                r.shuffle(ps)
            glue = r.choice(["", "", "a", "b", "xy"])
            v = glue.join(ps)
            if r.random() < 0.3:
                v = v[:-1]
            if r.random() < 0.2:
                v = r.choice("ab") + v
            if r.random() < 0.2:
                v += r.choice("ab")
            # overlapping parts
            if r.random() < 0.3:
                i = r.randrange(len(v) + 1)
                v = v[:i] + v[i + 1:]
            res.append(v)
        res.append(r.randint(0, 20))
        return res

    def props(self, t, n):
        r = self.r
        ls = self.leaves(t)
        res = []
        for _ in range(n):
            p = {}
            for leaf in r.sample(ls, r.randint(0, min(len(ls), 5))):
                k = leaf[1]
                if r.random() < 0.1:
                    k = r.choice(KEYS)
                vs = p.setdefault(k, set())
                cand = self.values(leaf)
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    vs.add(r.choice(cand))
            res.append(p)
        return res

    def mutate(self, s):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randrange(len(s) + 1)
            x = r.random()
            c = r.choice(ALPHABET)
            if x < 0.35:
                s = s[:i] + s[i + 1:]
            elif x < 0.65:
                s = s[:i] + c + s[i:]
            elif x < 0.9:
                s = s[:i] + c + s[i + 1:]
            else:
                j = r.randrange(len(s) + 1)
                s = s[:min(i, j)] + s[max(i, j):]
        return s


def odd_integer(s):
    """Spellings of integers of which the grammar says nothing clear"""
    for m in re.finditer(r"[<>]([^()*\\&|=<>]*)", s):
        v = m.group(1)
        if not re.fullmatch(r"-?[0-9]+", v):
            try:
                int(v)
                return True
            except ValueError:
                pass
    return False


POOL = [{}, {"a": {"a"}}, {"a": {"1"}}, {"a": {1}}, {"1": {"a", 1}},
        {"a": {"aa", 1}, "1": {-1}}, {"a": {"*"}, "=": {"a"}},
        {"a": {"a1", 11, 0}}]


def random_cases(seed, n):
    g = Gen(seed)
    res = []
    while len(res) < n:
        t = g.tree(g.r.choice([0, 0, 1, 2, 3]))
        s = g.text(t)
        ps = g.props(t, 6)
        if g.r.random() < 0.3:
            s = g.mutate(s)
        if odd_integer(s) or len(s) > 3000:
            continue
        res.append((s, ps))
    return res


def special_cases():
    res = []

    def add(s, *ps):
        res.append((s, list(ps) or POOL))
    for n in (1, 2, 50, 98, 99):
        add("(!" * n + "(a=a)" + ")" * n)
        add("(&(a=*)" * n + "(a=1)" + ")" * n)
        add("(|" * n + "(a=1)" + "(a=a))" * n)
    for n in (140, 500, 5000, 100000):
        add("(!" * n + "(a=a)" + ")" * n)
        add("(&(a=*)" * n + "(a=1)" + ")" * n)
        add("(" * n)
        add("(!" * n)
        add("(|" * n)
    for n in (20, 60):
        v = {"a": {"a" * n + "b", "a" * n}}
        add("(a=" + "*a" * (n // 2) + "*c)", v)
        add("(a=" + "*a" * n + "*)", v)
        add("(a=" + "*a" * (n + 1) + "*)", v)
        add("(a=a" + "*a" * (n // 2) + "*b)", v)
    add("(a=*\\**)", {"a": {"*"}}, {"a": {"a*b"}}, {"a": {"\\"}}, {})
    add("(a=.*)", {"a": {"x"}}, {"a": {".x"}}, {"a": {"."}}, {"a": {""}})
    add("(a=*[ab]*)", {"a": {"a"}}, {"a": {"[ab]"}})
    add("(a=*\n*)", {"a": {"x\ny"}}, {"a": {"\n"}}, {"a": {"xy"}})
    add("(a=x*y)", {"a": {"x\ny"}}, {"a": {"xy"}}, {"a": {"xy\n"}})
    add("(a=*$)", {"a": {"a$"}}, {"a": {"a"}}, {"a": {"a$\n"}})
    for n in (1, 64, 3000):
        add("(%s=%s)" % ("k" * n, "v" * n), {"k" * n: {"v" * n}})
    add("(a>%s)" % ("9" * 300), {"a": {10 ** 300}}, {"a": {10 ** 300 - 1}},
        {"a": {10 ** 299}})
    add("(a<-%s)" % ("9" * 300), {"a": {-10 ** 300}},
        {"a": {1 - 10 ** 300}})
    add("(&" + "(a=*)" * 300 + ")", {"a": {"x"}}, {})
    add("(|" + "(b=*)" * 300 + ")", {"a": {"x"}}, {})
    return res


def short_cases(maxlen, wrap, part, parts):
    k = 0
    for n in range(0, maxlen + 1):
        for w in itertools.product(ALPHABET, repeat=n):
            k += 1
            if k % parts != part:
                continue
            s = "".join(w)
            s = "(" + s + ")" if wrap else s
            yield s


# --------------------------------------------------------------------- jobs

def run(cases, src, sample=0):
    cov = core.Cov()
    (gen, dist), bad, raw = judge(cases)
    cov.add("trace_validation_states", dist)
    cov.add("filters_" + src, len(cases))
    cov.add("accepted_filters", sum(o[0] == "ok" for o in raw))
    cov.add("matches_compared", sum(len(o[1]) for o in raw))
    cov.add("traces_validated_against_impl", len(cases) - len(bad))
    for (s, ps), o in list(zip(cases, raw))[:sample]:
        cov.samples.append({"filter": s, "outcome": o[0], "printed": o[2],
                            "matches": o[1],
                            "property sets": [repr(p) for p in ps]})
    viol = [core.Violation(
        "filter %r: %s (%s)" % (s[:200], why, repr(o)[:300]), {"C17"},
        {"kind": "filtercheck", "filter": s, "props": [repr(p) for p in ps],
         "why": why, "code": repr(o)[:2000]})
        for (s, ps), why, o in bad[:5]]
    return cov, viol


def job_random(seed, n, sample):
    return run(random_cases(seed, n), "random", sample)


def job_special():
    return run(special_cases(), "special")


def job_short(maxlen, wrap, part, parts):
    return run([(s, POOL) for s in short_cases(maxlen, wrap, part, parts)],
               "short_exhaustive")


def job_model(size, budget, seed):
    txt, rc = tlc.run("FilterMC", "mc/filter_%s.cfg" % size, workers=4,
                      heap="4g")
    cov = core.Cov()
    if rc != 0:
        raise tlc.TlcError(txt[-3000:])
    gen, dist = tlc.stats(txt)
    cov.add("states", dist)
    cov.add("transitions", gen)
    ss = set()
    for m in re.finditer(r'<<\s*"F",\s*<<([-0-9,\s]*)>>\s*>>', txt):
        ss.add("".join(chr(int(x)) for x in m.group(1).split(",")))
    cov.add("filters_emitted_by_model", len(ss))
    ss = sorted(ss)
    random.Random(seed).shuffle(ss)
    viol = []
    for part in core.chunks(ss[:budget], 6000):
        c, v = run([(s, POOL) for s in part], "from_model")
        cov.merge(c)
        viol += v
    return cov, viol


def check(ctx):
    jobs = [(job_model, ("big" if ctx.thorough else "small", 10 ** 9,
                         ctx.seed)),
            (job_special, ())]
    if ctx.thorough:
        jobs += [(job_short, (5, True, p, 64)) for p in range(64)]
        jobs += [(job_short, (4, False, p, 4)) for p in range(4)]
    else:
        jobs += [(job_short, (4, True, p, 6)) for p in range(6)]
        jobs += [(job_short, (3, False, 0, 1))]
    n = ctx.pick(8, 120)
    jobs += [(job_random, (ctx.seed * 100003 + k, 2500,
                           2 if k == 0 else 0)) for k in range(n)]
    core.run_jobs(ctx, jobs, procs=4)


def replay(d, n):
    ps = [eval(p, {"__builtins__": {}, "set": set}) for p in d["props"]]
    _, bad, raw = judge([(d["filter"], ps)])
    print("filter:", d["filter"])
    print("the code:", raw[0])
    for p, m in zip(ps, raw[0][1]):
        print("  ", p, m)
    print("verdict:", bad[0][1] if bad else "accepted")
    return 1 if bad else 0
