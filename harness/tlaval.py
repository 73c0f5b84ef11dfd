"""Parses values as TLC prints them."""

import re

TOKEN = re.compile(r'\s*(<<|>>|\|->|:>|@@|\[|\]|\{|\}|\(|\)|,|"(?:[^"\\]|\\.)*"'
                   r'|-?\d+|TRUE|FALSE|[A-Za-z_]\w*)')


class Tokens:
    def __init__(self, text):
        self.toks = []
        pos = 0
        text = text.rstrip()
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise ValueError("cannot parse at %r" % text[pos:pos + 40])
            self.toks.append(m.group(1))
            pos = m.end()
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def expect(self, t):
        got = self.next()
        if got != t:
            raise ValueError("expected %s, found %s" % (t, got))


def freeze(v):
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, set, frozenset)):
        return tuple(freeze(x) for x in v)
    return v


def value(t):
    x = t.next()
    if x == "<<":
        res = []
        while t.peek() != ">>":
            res.append(value(t))
            if t.peek() == ",":
                t.next()
        t.next()
        return res
    if x == "{":
        res = []
        while t.peek() != "}":
            res.append(value(t))
            if t.peek() == ",":
                t.next()
        t.next()
        return res
    if x == "[":
        res = {}
        while t.peek() != "]":
            k = t.next()
            t.expect("|->")
            res[k] = value(t)
            if t.peek() == ",":
                t.next()
        t.next()
        return res
    if x == "(":
        res = {}
        while t.peek() != ")":
            k = value(t)
            t.expect(":>")
            res[k if not isinstance(k, (list, dict)) else freeze(k)] = \
                value(t)
            if t.peek() == "@@":
                t.next()
        t.next()
        return res
    if x == "TRUE":
        return True
    if x == "FALSE":
        return False
    if x[0] == '"':
        return x[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    if x.lstrip("-").isdigit():
        return int(x)
    return x


def parse(text):
    t = Tokens(text)
    v = value(t)
    if t.peek() is not None:
        raise ValueError("trailing %s" % t.peek())
    return v


def printed(out, tag):
    """The texts <<"tag", ...>> printed by PrintT, which TLC may break over
    several lines"""
    cur = None
    heads = ('<<"%s"' % tag, '<< "%s"' % tag)
    for ln in out.split("\n"):
        if cur is None:
            if not ln.startswith(heads):
                continue
            cur = [ln]
            depth = 0
        else:
            cur.append(ln)
        depth += ln.count("<<") - ln.count(">>")
        if depth <= 0:
            yield cur[0] if len(cur) == 1 else \
                re.sub(r"\s+", " ", " ".join(cur))
            cur = None
