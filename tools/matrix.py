"""Runs the checks against seeded bugs in scratch copies: tools/matrix.py [--all] [--checks P01,P02] [ID ...]"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
all_ = "--all" in sys.argv
man = json.load(open(V + "/MANIFEST.json"))
ids = args or sorted(os.listdir(V + "/seeded"))
for id in ids:
    meta = json.load(open(V + "/seeded/" + id + "/meta.json"))
    work = "/tmp/matrix/" + id
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs("/tmp/matrix", exist_ok=True)
    shutil.copytree("/repo", work, symlinks=True)
    subprocess.run(["git", "apply", V + "/seeded/" + id + "/patch.diff"], cwd=work, check=True)
    props = [c["property"] for c in man["checks"]] if all_ else [meta["property"]]
    res = []
    for p in props:
        r = subprocess.run(["/opt/venv/bin/python", V + "/check.py", p], cwd=V, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=work, VERIF_NOEVIDENCE="1"))
        line = [x for x in r.stdout.splitlines() if x.startswith("  case")]
        res.append((p, r.returncode, line[0][:150] if line else r.stdout[-200:] if r.returncode > 1 else ""))
    shutil.rmtree(work, ignore_errors=True)
    if all_:
        print(id, meta["property"], "caught by", [p for p, c, _ in res if c == 1], "odd", [p for p, c, _ in res if c not in (0, 1)], flush=True)
    else:
        print(id, *["{} {} {}".format(p, {0: "MISSED", 1: "caught"}.get(c, "ERROR %s" % c), l) for p, c, l in res], flush=True)
