"""Runs the quick check of each planted bug's property against a copy of
/repo with the bug: seedcheck.py [-j N] [id...]"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
args = sys.argv[1:]
procs = 2
if args[:1] == ["-j"]:
    procs = int(args[1])
    args = args[2:]


def one(sid):
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="paf-seedcheck-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        subprocess.check_call(["git", "apply",
                               os.path.join(d, "patch.diff")], cwd=repo)
        r = subprocess.run(
            [os.path.join(V, "bin", "check"), prop], stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            env=dict(os.environ, PAF_REPO=repo, VERIF_SEED="1",
                     VERIF_EVIDENCE=os.path.join(tmp, "ev")))
        out = r.stdout.decode()
        why = [l for l in out.split("\n") if l.startswith("  ")]
        return sid, prop, r.returncode, (why or [out[-200:]])[0][:150]
    finally:
        shutil.rmtree(tmp)


ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
with concurrent.futures.ThreadPoolExecutor(procs) as ex:
    for f in [ex.submit(one, i) for i in ids]:
        sid, prop, rc, why = f.result()
        print("%-24s %s %s %s" % (sid, prop, {0: "MISSED", 1: "caught"}.get(
            rc, "NO ANSWER"), why), flush=True)
