#!/usr/bin/env python3
"""Make a planted bug: plant.py DIR, where DIR/bug.py defines ID, PROPERTY,
EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python text; kit on the path) or
FILES {name: text} with a demo.sh.  Confirms everything in a scratch copy and
writes seeded/<ID>/."""
import sys, os, json, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = ("rtlc.py", "hw.py", "designs.py", "bus.py", "streams.py", "frames.py", "gen.py", "model.py", "regs.py")
SH = '''#!/bin/bash
# exit 0 when the repository in the current directory behaves, 1 otherwise
export PYTHONDONTWRITEBYTECODE=1 VP_REPO="$PWD"
exec /opt/pypyvenv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "kit"))
import hw, designs, streams, frames, gen, model, bus, regs
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main(path):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(ROOT, "seeded", ns["ID"])
    w = tempfile.mkdtemp(prefix="plant")
    try:
        repo = os.path.join(w, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.split()[0]
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            n = t.count(old)
            assert n == 1, "%s: %d matches of %r" % (f, n, old)
            orig = sh("git show 363083f:%s" % f, repo).stdout
            for line in old.splitlines():
                if line.strip() and line not in new.splitlines() and line not in orig:
                    print("WARNING: not an original line:", line)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", repo).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        for n, t in ns.get("FILES", {}).items():
            open(os.path.join(d, n), "w").write(t)
        if "DEMO" in ns:
            open(os.path.join(d, "demo.py"), "w").write(HEAD + ns["DEMO"])
            open(os.path.join(d, "demo.sh"), "w").write(SH)
            os.makedirs(os.path.join(d, "kit"))
            for k in KIT:
                shutil.copy(os.path.join(ROOT, "lib", k), os.path.join(d, "kit"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        cp = os.path.join(w, "x")
        shutil.copytree(d, cp)
        bad = sh("timeout 300 bash %s/demo.sh" % cp, repo)
        st = sh("git status --short", repo).stdout
        ts = sh("/usr/bin/python3 /opt/vp/run_scripts.py . /opt/pypyvenv/bin/python", repo)
        sh("git checkout -- .", repo)
        good = sh("timeout 300 bash %s/demo.sh" % cp, repo)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = [s for s in stable if "PASS " + s in ts.stdout]
        ok = good.returncode == 0 and bad.returncode not in (0, 124) and len(passed) == len(stable)
        print(ns["ID"], ns["PROPERTY"], "good", good.returncode, "bad", bad.returncode, "tests %d/%d" % (len(passed), len(stable)),
              "OK" if ok else "*** NOT KEPT")
        print("   bad:", bad.stdout[-200:].strip())
        if not ok:
            print("   good:", good.stdout[-600:])
            if len(passed) != len(stable):
                print(ts.stdout[-800:])
            shutil.rmtree(d)
    finally:
        shutil.rmtree(w)

for a in sys.argv[1:]:
    main(a)
