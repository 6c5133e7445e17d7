"""Running TLC and reading its output."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, workers=8, timeout=600, heap="8g", simulate=None, depth=None, seed=None, extra=()):
    """-> dict(states, distinct, prints=[(tag, value)], ok, out)"""
    meta = tempfile.mkdtemp(prefix="tlc_")
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-config", (cfg or module) + ".cfg"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    prints = []
    for m in re.finditer(r'<<"([A-Z]+)", "((?:[^"\\]|\\.)*)">>', out):
        prints.append((m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))))
    st = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen = int(st.group(1).replace(",", "")) if st else 0
    dist = int(st.group(2).replace(",", "")) if st else 0
    return dict(rc=p.returncode, out=out, prints=prints, states=gen, distinct=dist)
