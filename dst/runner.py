"""Seeded search, minimisation, replay and evidence for one property.

  python -m dst.runner check   <ID> [quick|thorough]
  python -m dst.runner replay  <file>
  python -m dst.runner digests <ID> <first> <count> <workers>     (determinism self-check helper)
"""

from __future__ import annotations

import gc
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time

from . import core, shrinker

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 20
CONFIRM_CPU = 60
WALL_LIMIT = 120
AS_LIMIT = 3 << 30


def seed_for(pid, vseed, i):
    return int.from_bytes(hashlib.blake2b(f"{pid}/{vseed}/{i}".encode(), digest_size=8).digest(), "big")


def load_prop(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def make_plan(prop, pid, seed, tier):
    rng = random.Random(seed)
    plan = prop.generate(rng, tier)
    if plan is None:
        return None
    plan = json.loads(json.dumps(plan))
    plan["property"], plan["seed"] = pid, seed
    return plan


def in_child(fn, cpu=CPU_LIMIT, wall=WALL_LIMIT):
    """Run fn() in a forked child; returns its JSON result, or {"status": "hang"/"died"}."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
            res = fn()
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:  # noqa: BLE001
            import traceback

            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + wall
    killed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if killed:
        return {"status": "hang", "msg": f"no result within {wall} s wall"}
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return {"status": "hang", "msg": f"killed by signal {sig} (CPU limit {cpu} s)"}
        return {"status": "died", "msg": f"killed by signal {sig}"}
    if os.WEXITSTATUS(st) != 0:
        return {"status": "died", "msg": f"exit {os.WEXITSTATUS(st)}"}
    return json.loads(b"".join(buf))


def exec_plan(prop, plan, trace=False, cpu=CPU_LIMIT):
    out = in_child(lambda: core.run_plan(prop, plan, trace), cpu=cpu)
    if out["status"] == "hang" and cpu < CONFIRM_CPU:
        out = in_child(lambda: core.run_plan(prop, plan, trace), cpu=CONFIRM_CPU, wall=WALL_LIMIT * 2)
    if out["status"] == "hang":
        out = {"status": "violation", "cls": "hang", "msg": out["msg"], "digest": "", "stats": {}, "sigs": [],
               "nontrivial": True, "steps": 0}
    elif out["status"] == "died":
        out = {"status": "violation", "cls": "died", "msg": out["msg"], "digest": "", "stats": {}, "sigs": [],
               "nontrivial": True, "steps": 0}
    return out


def one_run(prop, pid, seed, tier, want_sample=False):
    def go():
        plan = make_plan(prop, pid, seed, tier)
        if plan is None:
            return {"status": "skip", "msg": "no plan", "digest": "", "stats": {}, "sigs": [], "nontrivial": False, "steps": 0}
        out = core.run_plan(prop, plan)
        if want_sample and out["status"] == "ok" and out["nontrivial"]:
            out["sample"] = plan
        return out

    out = in_child(go)
    if out["status"] in ("hang", "died"):
        plan = in_child(lambda: {"plan": make_plan(prop, pid, seed, tier), "status": "ok"})
        if plan["status"] != "ok":
            return {"status": "error", "msg": f"plan generation did not finish: {plan['msg']}", "digest": "", "stats": {},
                    "sigs": [], "nontrivial": False, "steps": 0}
        out = exec_plan(prop, plan["plan"], cpu=CONFIRM_CPU)
    return out


def worker(prop, pid, vseed, tier, wid, nworkers, total, deadline, stop, wfd):
    agg = {"runs": 0, "skips": 0, "stats": {}, "sigs": set(), "digests": set(), "nontrivial": 0, "steps": 0,
           "violations": [], "errors": [], "samples": [], "by_index": {}}
    for i in range(wid, total, nworkers):
        if stop[0] or time.monotonic() > deadline:
            break
        seed = seed_for(pid, vseed, i)
        out = one_run(prop, pid, seed, tier, want_sample=len(agg["samples"]) < 1)
        agg["runs"] += 1
        if out["status"] == "skip":
            agg["skips"] += 1
        elif out["status"] == "error":
            # keep searching: what made this run useless may show as a violation in another one
            if len(agg["errors"]) < 20:
                agg["errors"].append({"index": i, "seed": seed, "msg": out["msg"]})
        elif out["status"] == "violation":
            agg["violations"].append({"index": i, "seed": seed, "cls": out["cls"], "msg": out["msg"]})
            stop[0] = 1
            break
        for k, v in out["stats"].items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["sigs"].update(out["sigs"])
        agg["steps"] += out["steps"]
        if out["nontrivial"]:
            agg["nontrivial"] += 1
            agg["digests"].add(out["digest"])
        if "sample" in out:
            agg["samples"].append(out["sample"])
    agg["sigs"] = sorted(agg["sigs"])
    agg["digests"] = sorted(agg["digests"])
    data = json.dumps(agg).encode()
    with os.fdopen(wfd, "wb") as fh:
        fh.write(data)


def search(prop, pid, vseed, tier, total, budget, nworkers):
    stop = mmap.mmap(-1, 1)
    stop[0] = 0
    deadline = time.monotonic() + budget
    kids = []
    gc.collect()
    gc.freeze()
    for wid in range(nworkers):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                os.close(r)
                worker(prop, pid, vseed, tier, wid, nworkers, total, deadline, stop, w)
            except BaseException:  # noqa: BLE001
                import traceback

                traceback.print_exc()
                code = 4
            os._exit(code)
        os.close(w)
        kids.append((p, r))
    merged = {"runs": 0, "skips": 0, "stats": {}, "sigs": set(), "digests": set(), "nontrivial": 0, "steps": 0,
              "violations": [], "errors": [], "samples": []}
    bufs = {r: [] for _, r in kids}
    open_ = set(bufs)
    while open_:
        rd, _, _ = select.select(list(open_), [], [])
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if b:
                bufs[fd].append(b)
            else:
                open_.discard(fd)
    for p, r in kids:
        os.close(r)
        _, st = os.waitpid(p, 0)
        if st != 0:
            merged["errors"].append({"msg": f"worker died with status {st}"})
            continue
        a = json.loads(b"".join(bufs[r]))
        for k in ("runs", "skips", "nontrivial", "steps"):
            merged[k] += a[k]
        for k, v in a["stats"].items():
            merged["stats"][k] = merged["stats"].get(k, 0) + v
        merged["sigs"].update(a["sigs"])
        merged["digests"].update(a["digests"])
        for k in ("violations", "errors", "samples"):
            merged[k] += a[k]
    merged["violations"].sort(key=lambda v: v["index"])
    return merged


def minimise(prop, plan, cls, budget, hint=None):
    end = time.monotonic() + budget
    best = plan
    tried = 0
    if hint:
        cand = json.loads(json.dumps({**plan, **hint}))
        out = exec_plan(prop, cand)
        tried += 1
        if out["status"] == "violation" and out["cls"] == cls:
            best = cand
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for cand in shrinker.candidates(prop, best):
            if time.monotonic() > end:
                break
            tried += 1
            cand = json.loads(json.dumps(cand))
            if core.jdump(cand) == core.jdump(best):
                continue
            out = exec_plan(prop, cand, cpu=min(CPU_LIMIT, 10) if cls != "hang" else CPU_LIMIT)
            if out["status"] == "violation" and out["cls"] == cls:
                best = cand
                improved = True
                break
    return best, tried


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return [e for e in json.load(fh)["findings"] if e["property"] == pid]


def confirm(prop, pid, vseed, tier, v):
    """Replay, minimise and write the replay file of a violation; it must reproduce in a fresh interpreter."""
    plan = make_plan(prop, pid, v["seed"], tier)
    first = exec_plan(prop, plan, cpu=CONFIRM_CPU if v["cls"] in ("hang",) else CPU_LIMIT)
    if first["status"] != "violation":
        return None, 0, None, f"seed {v['seed']} violated ({v['cls']}: {v['msg']}) but its replay gave {first['status']}"
    best, tried = minimise(prop, plan, first["cls"], 60, first.get("hint"))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    replay = os.path.join(VERIF, "replays", f"{pid}-{v['seed']:016x}.json")
    err = None
    for cand in (best, plan):
        final = exec_plan(prop, cand, trace=True)
        if final["status"] != "violation":
            err = f"{final['status']} on the second execution of a plan of seed {v['seed']}"
            continue
        with open(replay, "w") as fh:
            json.dump({"property": pid, "verif_seed": vseed, "index": v["index"], "seed": v["seed"],
                       "violation": final.get("cls"), "message": final.get("msg"), "digest": final.get("digest"),
                       "minimisation_candidates": tried, "plan": cand, "trace": final.get("trace")}, fh, indent=1)
        r = subprocess.run([sys.executable, "-m", "dst.runner", "replay", replay], cwd=VERIF, capture_output=True, text=True,
                           env={**os.environ, "PYTHONHASHSEED": "12345"}, timeout=600)
        if r.returncode == 1:
            return cand, tried, final, None
        # e.g. the minimised plan fails only with what the library happened to cache in this process
        err = f"replay of {replay} did not reproduce: {r.stdout[-1500:]} {r.stderr[-1500:]}"
    return None, tried, None, err


def check(pid, tier):
    t0 = time.monotonic()
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    core.setup_paths()
    prop = load_prop(pid)
    if hasattr(prop, "setup"):
        prop.setup()
    total = int(os.environ.get("DST_RUNS") or prop.RUNS[tier])
    budget = float(os.environ.get("DST_BUDGET") or {"quick": 300, "thorough": 3300}[tier])
    nworkers = int(os.environ.get("DST_WORKERS") or 8)

    for e in known_findings(pid):
        out = exec_plan(prop, e["plan"])
        if out["status"] == "violation":
            print(f"KNOWN-FINDING: property={pid} {e['id']}: {e['what']}")
        elif out["status"] == "error":
            print(f"harness error in known finding {e['id']}: {out['msg']}")
            return 2
        else:
            print(f"note: known finding {e['id']} no longer reproduces")

    m = search(prop, pid, vseed, tier, total, budget, nworkers)
    wall = time.monotonic() - t0
    viol_line = None
    replay = None
    if m["violations"]:
        problems = []
        for v in m["violations"][:8]:
            best, tried, final, err = confirm(prop, pid, vseed, tier, v)
            if err is None:
                replay = os.path.join(VERIF, "replays", f"{pid}-{v['seed']:016x}.json")
                break
            problems.append(err)
        if replay is None:
            for e in problems:
                print("harness error:", e)
            return 2
        print(f"seed={v['seed']} index={v['index']} class={final.get('cls')} after {tried} minimisation candidates")
        print((final.get("msg") or "")[:3000])
        viol_line = f"VIOLATION property={pid} replay={replay}"
    write_evidence(prop, pid, tier, vseed, m, wall, total, nworkers)
    if viol_line:
        print(viol_line)
        return 1
    if m["errors"]:
        for e in m["errors"][:3]:
            print("harness error:", e)
        return 2
    if m["runs"] - m["skips"] < 0.5 * m["runs"] or m["nontrivial"] == 0:
        print(f"harness error: too few effective runs ({m['runs']} runs, {m['skips']} skipped, {m['nontrivial']} nontrivial)")
        return 2
    print(f"{pid} {tier}: {m['runs']} runs ({m['skips']} skipped), {len(m['digests'])} distinct nontrivial histories, "
          f"{len(m['sigs'])} states, {wall:.1f} s: held")
    return 0


def write_evidence(prop, pid, tier, vseed, m, wall, total, nworkers):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    st = dict(sorted(m["stats"].items()))
    faults = {k[6:]: v for k, v in st.items() if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in st.items() if k.startswith("probe:")}
    for p in getattr(prop, "PROBES", []):
        probes.setdefault(p, 0)
    for p in getattr(prop, "FAULTS", []):
        faults.setdefault(p, 0)
    other = {k: v for k, v in st.items() if not k.startswith(("fault:", "probe:"))}
    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": m["runs"],
            "distinct_nontrivial": len(m["digests"]),
            "rule": prop.RULE,
            "samples": m["samples"][:3],
            "planned_runs": total,
            "skipped_out_of_domain": m["skips"],
            "nontrivial_runs": m["nontrivial"],
            "runs_per_hour": int(m["runs"] / max(wall, 1e-3) * 3600),
            "seeds": "exactly one seed per run, derived from (property, VERIF_SEED, run index)",
            "simulated_time": "no clock in the library; simulated events (stream calls, operations, scheduler steps) are counted instead",
            "simulated_events": m["steps"],
            "faults_fired": faults,
            "rare_condition_probes": probes,
            "operations": other,
            "distinct_states": len(m["sigs"]),
            "state_measure": prop.STATE_MEASURE,
            "workers": nworkers,
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
            "violations_found": m["violations"][:5],
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(m["violations"]),
    }
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + ".tmp", path)


def replay(path):
    core.setup_paths()
    with open(path) as fh:
        d = json.load(fh)
    prop = load_prop(d["property"])
    if hasattr(prop, "setup"):
        prop.setup()
    out = exec_plan(prop, d["plan"], trace=True)
    same = out["status"] == "violation" and out["cls"] == d["violation"] and (out["digest"] == d["digest"])
    print(json.dumps({k: out.get(k) for k in ("status", "cls", "msg", "digest")}, indent=1))
    if same:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    if out["status"] == "violation":
        print("a violation, but not the recorded one")
        return 1 if out["cls"] == d["violation"] and not d["digest"] else 3
    return 0 if out["status"] in ("ok", "skip") else 2


def digests(pid, first, count, nworkers):
    core.setup_paths()
    prop = load_prop(pid)
    if hasattr(prop, "setup"):
        prop.setup()
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    kids = []
    for wid in range(nworkers):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            res = []
            for i in range(first + wid, first + count, nworkers):
                o = one_run(prop, pid, seed_for(pid, vseed, i), "quick")
                res.append((i, o["status"], o["digest"], o["stats"], o["sigs"]))
            with os.fdopen(w, "wb") as fh:
                fh.write(json.dumps(res).encode())
            os._exit(0)
        os.close(w)
        kids.append((p, r))
    allr = []
    for p, r in kids:
        with os.fdopen(r, "rb") as fh:
            allr += json.loads(fh.read())
        os.waitpid(p, 0)
    for x in sorted(allr, key=lambda t: t[0]):
        print(core.jdump(x))
    return 0


def main(argv):
    os.chdir(VERIF)
    if argv[0] == "check":
        return check(argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "digests":
        return digests(argv[1], int(argv[2]), int(argv[3]), int(argv[4]))
    raise SystemExit(f"unknown command {argv[0]}")


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv[1:])
    sys.exit(rc)
