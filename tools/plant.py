"""Makes seeded/<id>/ from a definitions file: python3 tools/plant.py DEFS.py [ID ...]

DEFS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new), ...], needs, breaks, demo (Python text).
A bug is kept only if, in a scratch copy, the stable tests pass with it and its demo fails with it and passes without.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# exit 0 if the behaviour holds, nonzero if not; run with cwd at the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=280):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def plant(bug, preamble):
    work = "/tmp/plant/" + bug["id"]
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.copytree("/repo", work, symlinks=True)
    try:
        folder = work + "-seed"
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        open(folder + "/demo.py", "w").write(preamble + bug["demo"])
        open(folder + "/demo.sh", "w").write(SH)
        for f in bug.get("files", ()):
            shutil.copy(f, folder)
        os.chmod(folder + "/demo.sh", 0o755)
        r = sh(["bash", folder + "/demo.sh"], work)
        if r.returncode:
            return bug["id"], "DEMO FAILS ON CLEAN TREE\n" + r.stdout[-400:]
        for f, old, new in bug["edits"]:
            p = os.path.join(work, "src/compas_cem", f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug["id"], "TEXT FOUND {} TIMES in {}: {!r}".format(s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], work).stdout
        open(folder + "/patch.diff", "w").write(diff)
        r = sh(["bash", folder + "/demo.sh"], work)
        if not r.returncode:
            return bug["id"], "DEMO PASSES WITH THE BUG\n" + r.stdout[-500:]
        why = r.stdout.strip().splitlines()[-1:]
        base = json.load(open("/opt/vp/BASELINE.json"))
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests"], work, {"PYTHONPATH": work + "/src"})
        if r.returncode:
            return bug["id"], "TESTS FAIL\n" + r.stdout[-400:]
        dest = os.path.join(V, "seeded", bug["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(folder, dest)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(dest + "/meta.json", "w"), indent=1)
        return bug["id"], "ok  " + str(why)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(work + "-seed", ignore_errors=True)


def main():
    defs = runpy.run_path(sys.argv[1])
    bugs = [b for b in defs["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(8) as ex:
        for id, res in ex.map(lambda b: plant(b, defs.get("PREAMBLE", "")), bugs):
            print(id, res)


main()
