"""Sensitivity study: mechanical mutants of the code under verification.

  mutate.py [-j N] [-n COUNT] [-s SEED] FILE...      (e.g. paf/sd.py)

Makes random small changes (an operator, a constant, a statement dropped...)
to copies of /repo, keeps those which the stable tests accept, and tells which
of them the machinery accepts as well: probe.py for the server, the check of
the part's property otherwise."""

import ast
import concurrent.futures
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = "/opt/venv/bin/python"
CHECK = {"filter": ["C17"], "timer": ["C18"], "eventloop": ["C21"],
         "client": ["C19"], "conf": ["C22"]}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
        ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}
TALK = ("debug", "info", "warning", "error", "exception", "set_context",
        "critical", "log", "print", "__str__", "__repr__")


def talks(st):
    if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
        return False
    f = st.value.func
    name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
    return name in TALK


def sites(tree):
    """[(line, description, function which changes the tree in place)]"""
    res = []

    def add(node, what, fn):
        res.append((getattr(node, "lineno", 0), what, fn))

    def visit(node, infn):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name in TALK:
                return
            infn = True
        if isinstance(node, ast.stmt) and talks(node):
            return
        if infn:
            if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
                def f(node=node):
                    node.ops[0] = SWAP[type(node.ops[0])]()
                add(node, "compare", f)
            if isinstance(node, ast.BoolOp):
                def f(node=node):
                    node.op = SWAP[type(node.op)]()
                add(node, "and/or", f)
                for k in range(len(node.values)):
                    def f(node=node, k=k):
                        del node.values[k]
                        if len(node.values) == 1:
                            node.values.append(copy.deepcopy(node.values[0]))
                    add(node, "drop operand %d" % k, f)
            if isinstance(node, ast.BinOp) and type(node.op) in SWAP and \
               not isinstance(node.left, ast.Constant):
                def f(node=node):
                    node.op = SWAP[type(node.op)]()
                add(node, "arithmetic", f)
            if isinstance(node, (ast.If, ast.While, ast.IfExp)):
                for v in ("not", "true", "false"):
                    def f(node=node, v=v):
                        node.test = ast.UnaryOp(ast.Not(), node.test) \
                            if v == "not" else ast.Constant(v == "true")
                    if not (isinstance(node, ast.While) and v != "false"):
                        add(node, "test " + v, f)
            if isinstance(node, ast.Constant) and \
               isinstance(node.value, bool):
                def f(node=node):
                    node.value = not node.value
                add(node, "bool", f)
            elif isinstance(node, ast.Constant) and \
                    isinstance(node.value, (int, float)):
                for d in (1, -1):
                    def f(node=node, d=d):
                        node.value += d
                    add(node, "const %+d" % d, f)
            if isinstance(node, ast.Name) and node.id in ("min", "max"):
                def f(node=node):
                    node.id = {"min": "max", "max": "min"}[node.id]
                add(node, "min/max", f)
            if isinstance(node, ast.Return) and node.value is not None:
                def f(node=node):
                    node.value = None
                add(node, "return None", f)
            for fld in ("body", "orelse", "finalbody"):
                lst = getattr(node, fld, None)
                if not isinstance(lst, list):
                    continue
                for k, st in enumerate(lst):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign,
                                       ast.Delete, ast.Raise, ast.Break,
                                       ast.Continue, ast.If, ast.For)) and \
                       not talks(st) and not (
                            isinstance(st, ast.Expr) and
                            isinstance(st.value, ast.Constant)):
                        def f(lst=lst, k=k):
                            lst[k] = ast.Pass()
                        add(st, "drop " + type(st).__name__, f)
                    if k + 1 < len(lst) and not talks(st) and \
                       not talks(lst[k + 1]) and \
                       isinstance(st, (ast.Expr, ast.Assign)) and \
                       isinstance(lst[k + 1], (ast.Expr, ast.Assign)):
                        def f(lst=lst, k=k):
                            lst[k], lst[k + 1] = lst[k + 1], lst[k]
                        add(st, "swap with next", f)
        for ch in ast.iter_child_nodes(node):
            visit(ch, infn)

    visit(tree, False)
    return res


def one(job):
    f, k, seed = job
    tmp = tempfile.mkdtemp(prefix="paf-mutate-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        path = os.path.join(repo, f)
        src = open(path).read()
        tree = ast.parse(src)
        line, what, fn = sites(tree)[k]
        fn()
        ast.fix_missing_locations(tree)
        with open(path, "w") as o:
            o.write(ast.unparse(tree) + "\n")
        desc = "%s:%d %s: %s" % (f, line, what,
                                 src.split("\n")[line - 1].strip())
        r = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x",
                            "-p", "no:cacheprovider",
                            "test/test_filter.py", "test/test_timer.py"],
                           cwd=repo, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=120)
        if r.returncode != 0:
            return "tests", desc, ""
        name = os.path.basename(f)[:-3]
        env = dict(os.environ, PAF_REPO=repo, VERIF_SEED=str(seed),
                   VERIF_EVIDENCE=os.path.join(tmp, "ev"))
        if name in CHECK:
            cmds = [[os.path.join(V, "bin", "check"), c]
                    for c in CHECK[name]]
        else:
            cmds = [[PY, "-B", os.path.join(V, "tools", "probe.py")]]
        for cmd in cmds:
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, env=env,
                                   timeout=1500)
            except subprocess.TimeoutExpired:
                return "TIMEOUT", desc, ""
            out = r.stdout.decode(errors="replace")
            if r.returncode == 1 and "VIOLATION" in out:
                why = [x for x in out.split("\n") if x.startswith("  ")]
                return "caught", desc, (why or [""])[0][:100]
            if r.returncode != 0:
                return "NO ANSWER", desc, out[-300:]
        return "SURVIVED", desc, ""
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    procs, n, seed = 2, 50, 1
    while args and args[0].startswith("-"):
        v = int(args[1])
        if args[0] == "-j":
            procs = v
        elif args[0] == "-n":
            n = v
        else:
            seed = v
        args = args[2:]
    jobs = []
    for f in args:
        tree = ast.parse(open(os.path.join("/repo", f)).read())
        jobs += [(f, k, seed) for k in range(len(sites(tree)))]
    print("%d mutants possible" % len(jobs), flush=True)
    random.Random(seed).shuffle(jobs)
    count = {}
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        for fu in concurrent.futures.as_completed(
                [ex.submit(one, j) for j in jobs[:n]]):
            res, desc, why = fu.result()
            count[res] = count.get(res, 0) + 1
            print("%-9s %s   %s" % (res, desc, why), flush=True)
    print(count)


if __name__ == "__main__":
    main()
