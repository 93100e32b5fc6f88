#!/usr/bin/env python3
"""matrix.py [-a] [ID ...]: which checks catch which planted bug.  Runs on a
scratch copy of /repo (VP_REPO).  -a: every check, not only the bug's own."""
import sys, os, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
claimed = [c["property"] if "property" in c else c["property_id"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]

def one(i):
    d = os.path.join(ROOT, "seeded", i)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="mx")
    out = []
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w + "/repo")
        assert r.returncode == 0, i
        todo = claimed if "-a" in sys.argv else [p]
        for c in todo:
            e = dict(os.environ, VP_REPO=w + "/repo", VP_EVIDENCE=w + "/ev", VERIF_SEED="1")
            r = subprocess.run(["./run.sh", c, "quick"], cwd=ROOT, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("  [")]
            out.append((c, r.returncode, v[0][:140] if v else ""))
    finally:
        shutil.rmtree(w)
    own = [o for o in out if o[0] == p]
    print("%-26s own %s rc=%s %s" % (i, p, own[0][1] if own else None, own[0][2] if own else ""))
    if "-a" in sys.argv:
        print("    caught by: %s   errors: %s" % (" ".join(o[0] for o in out if o[1] == 1), " ".join(o[0] for o in out if o[1] not in (0, 1))))
    sys.stdout.flush()

for i in ids:
    one(i)
