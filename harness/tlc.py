"""Running TLC."""

import json
import os
import re
import resource
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class TlcError(Exception):
    pass


def classpath():
    """as in the tlc wrapper script"""
    jars = [JAR]
    d = os.path.dirname(JAR)
    for n in sorted(os.listdir(d)):
        if n.endswith(".jar") and n != "tla2tools.jar":
            jars.append(os.path.join(d, n))
    return ":".join(jars)


def unlimited():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def run(module, cfg, env=None, workers=8, heap="8g", timeout=800, args=(),
        workdir=None, stack="512m"):
    """Returns (output, returncode)"""
    tmp = tempfile.mkdtemp(prefix="paf-tlc-")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack,
               "-Djava.io.tmpdir=" + tmp,
               "-Dtlc2.tool.queue.IStateQueue=MemStateQueue",
               "-cp", classpath(), "tlc2.TLC", "-workers", str(workers),
               "-config", cfg, "-metadir", os.path.join(tmp, "m"),
               "-noGenerateSpecTE", "-nowarning"] + list(args) + [module]
        p = subprocess.run(cmd, cwd=workdir or SPEC, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, preexec_fn=unlimited)
        return p.stdout.decode("utf-8", "replace"), p.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)
