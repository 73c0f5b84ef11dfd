"""Makes /verif/seeded/<id>/ out of tools/seeds/<id>.py and tries it out.

tools/seeds/<id>.py begins with a literal dict SEED (property, needs,
what_it_breaks, edits: [(file, old, new)]), followed by the demonstration.
usage: seed.py [id...]
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          **kw)


def make(sid):
    src = open(os.path.join(HERE, "seeds", sid + ".py")).read()
    tree = ast.parse(src)
    seed = ast.literal_eval(tree.body[0].value)
    demo = "\n".join(src.split("\n")[tree.body[0].end_lineno:]).lstrip("\n")
    d = os.path.join(V, "seeded", sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="paf-seed-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        open(os.path.join(d, "demo.py"), "w").write(demo)
        shutil.copy(os.path.join(HERE, "seeds", "demolib.py"), d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/sh\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        demosh = ["bash", os.path.join(d, "demo.sh")]
        r = sh(demosh, repo, timeout=120)
        if r.returncode != 0:
            return "demo fails without the change: " + \
                r.stdout.decode()[-1500:]
        for f, old, new in seed["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%d occurrences of %r in %s" % (s.count(old), old, f)
            open(p, "w").write(s.replace(old, new))
        r = sh(demosh, repo, timeout=280)
        if r.returncode == 0:
            return "demo passes with the change"
        last = r.stdout.decode().strip().split("\n")[-1]
        diff = subprocess.check_output(["git", "diff"], cwd=repo)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                "test_filter.py", "test_timer.py"],
               os.path.join(repo, "test"),
               env=dict(os.environ, PYTHONPATH=repo,
                        PYTHONDONTWRITEBYTECODE="1"), timeout=100)
        if t.returncode != 0:
            return "tests fail: " + t.stdout.decode()[-600:]
        json.dump({k: seed[k] for k in ("property", "needs",
                                        "what_it_breaks")},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        return "ok (%s)" % last[:120]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(
    os.path.join(HERE, "seeds")) if f.endswith(".py") and f != "demolib.py")
bad = 0
for i in ids:
    res = make(i)
    if not res.startswith("ok"):
        bad = 1
        shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
    print(i, res)
sys.exit(bad)
