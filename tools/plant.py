"""Plant and confirm a bug: python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS = {id: {"property", "edits": [(file, old, new), ...], "demo": python text, "needs", "what"}}.
In a scratch copy of /repo the edits are applied, the test suite and the demonstration are run with and without them, and only a
confirmed bug is written to /verif/seeded/<id>/.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys

WT = "/tmp/plant_wt"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"  # edits of the same size within a second would go unnoticed
SEEDED = "/verif/seeded"
DEMO_SH = '#!/bin/sh\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def demo(d):
    return sh("sh", f"{d}/demo.sh", cwd=WT, timeout=300)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or [b for b in bugs if not os.path.exists(f"{SEEDED}/{b}")]
    shutil.rmtree(WT, ignore_errors=True)
    sh("cp", "-a", "/repo", WT)
    sh("find", WT, "-name", "__pycache__", "-prune", "-exec", "rm", "-r", "{}", "+")
    for bid in ids:
        b = bugs[bid]
        sh("git", "-C", WT, "checkout", "-q", "--", "dissect")
        tmp = f"/tmp/plant_{bid}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(f"{tmp}/demo.sh", "w").write(DEMO_SH)
        open(f"{tmp}/demo.py", "w").write(b["demo"].lstrip("\n"))
        r = demo(tmp)
        if r.returncode != 0:
            print(bid, "NO: the demo fails on the unchanged tree", r.stdout, r.stderr[-1500:])
            continue
        bad = False
        for f, old, new in b["edits"]:
            p = f"{WT}/dissect/cstruct/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, f"NO: {s.count(old)} matches in {f}:\n{old}")
                bad = True
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        diff = sh("git", "-C", WT, "diff", "--", "dissect").stdout
        # do the changed lines exist in the original repository?
        root = sh("git", "-C", WT, "rev-list", "--max-parents=0", "HEAD").stdout.strip().split()[-1]
        first = sh("git", "-C", WT, "rev-list", "--reverse", "HEAD").stdout.split()[0]
        orig = {}
        mine = 0
        tot = 0
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- "):
                cur = line[6:]
                orig[cur] = set(sh("git", "-C", WT, "show", f"{first}:{cur}").stdout.splitlines())
            elif line.startswith("-"):
                tot += 1
                mine += line[1:] not in orig[cur]
        r = demo(tmp)
        if r.returncode == 0:
            print(bid, "NO: the demo passes with the bug")
            continue
        out = f"/tmp/plant_{bid}.json"
        env = {**os.environ, "PYTHONPATH": WT}
        t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", cwd=WT, env=env)
        last = t.stdout.strip().splitlines()[-1:] or [""]
        if t.returncode != 0:
            print(bid, "NO: tests fail:", [x for x in t.stdout.splitlines() if x.startswith("FAILED")][:3], last)
            continue
        d = f"{SEEDED}/{bid}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(f"{d}/meta.json", "w"), indent=1)
        print(bid, f"ok ({last[0]}) removed lines: {tot}, not original: {mine}; {r.stderr.strip().splitlines()[-1:]}")
    shutil.rmtree(WT, ignore_errors=True)


main()
