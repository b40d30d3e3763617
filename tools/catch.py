"""Run the check of each planted bug against a scratch copy with the bug: python3 tools/catch.py [-t TIER] [ID ...]"""

import json
import os
import shutil
import subprocess
import sys
import time

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
WT = "/tmp/catch_wt"
args = sys.argv[1:]
tier = "quick"
extra = []
while args[:1] and args[0].startswith("-"):
    if args[0] == "-t":
        tier = args[1]
        args = args[2:]
    elif args[0] == "-p":
        extra = args[1].split(",")
        args = args[2:]
ids = args or sorted(os.listdir("/verif/seeded") + os.listdir("/verif/seeded_own_lines"))
shutil.rmtree(WT, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", WT], check=True)
subprocess.run(["find", WT, "-name", "__pycache__", "-prune", "-exec", "rm", "-r", "{}", "+"])
for bid in ids:
    d = f"/verif/seeded/{bid}"
    if not os.path.isdir(d):  # changes only lines added by "fix:" commits
        d = f"/verif/seeded_own_lines/{bid}"
    subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "dissect"], check=True)
    subprocess.run(["git", "-C", WT, "apply", f"{d}/patch.diff"], check=True)
    prop = json.load(open(f"{d}/meta.json"))["property"]
    for p in extra or [prop]:
        t0 = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "-m", "dst.runner", "check", p, tier], cwd="/verif", capture_output=True, text=True,
                           env={**os.environ, "DST_REPO": WT})
        lines = [x for x in r.stdout.splitlines() if x.strip()]
        print(f"{bid:28s} {p} rc={r.returncode} {time.time() - t0:.0f}s", "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", flush=True)
        if r.returncode != 0:
            print("    ", "\n     ".join(x[:200] for x in lines if not x.startswith("KNOWN"))[:700], flush=True)
            if r.returncode not in (0, 1):
                print(r.stderr[-2000:])
shutil.rmtree(WT, ignore_errors=True)
