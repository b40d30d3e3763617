"""C15: concurrent parsing with shared types is equivalent to sequential parsing, under a deterministic thread scheduler.

One run = one definition loaded into one cstruct object whose types are shared by 2-4 simulated threads; each thread parses,
dumps, dereferences or default-constructs on streams of its own.  A seeded scheduler decides at every executed source line of the
library (in some runs also at every call, return and stream call, or at every bytecode instruction) which thread continues; some threads are broken off by stream failures or by
an asynchronous exception.  Every thread's results are compared with those of the same operations running alone on a separately
built cstruct object.
"""

from __future__ import annotations

import random
import sys

from .. import core, gen, real, sched, simio
from .. import model as M
from . import common

RUNS = {"quick": 22000, "thorough": 500000}
RULE = ("one run = one random definition x 2-4 threads with 1-3 operations each x one schedule (random, PCT priority changes, round robin, "
        "bursts) over all executed library lines (in some runs also calls, returns and stream calls, in a tenth of the runs all bytecode instructions); non-trivial = at least 3 context switches inside library code and "
        "at least 2 completed operations compared; distinct = digest of the complete schedule and all results")
STATE_MEASURE = "distinct (function, relative line) points at which a thread was preempted inside the library; and pairs of preempted/resumed operations"
REAL = ["all of dissect.cstruct including generated readers, on real threads"]
STUB = ["thread scheduler (baton passing at sys.settrace events)", "locks created by the library (simulated)",
        "file object (simio.SimFile), one per thread"]
ASSUMPTIONS = ["context switches happen at source lines (as the property says), calls, returns and stream calls, in a tenth of the runs between any two bytecode instructions; never inside C code",
               "the expected results come from the same operations run sequentially on a separately built, identical cstruct object"]
PROBES = ["expression_shared", "union_shared", "bitfield_shared", "pointer_shared", "fine_grained", "instruction_level", "thread_died", "same_type",
          "different_types", "first_use_concurrent"]
FAULTS = ["truncated_stream", "device_error", "thread_interrupted"]
LISTS = ("switches",)
PROGS = ("prog",)


def setup():
    """Simulated locks for the library: re-import it with patched lock constructors."""
    sched.install_locks()
    for n in [n for n in sys.modules if n == "dissect.cstruct" or n.startswith("dissect.cstruct.")]:
        del sys.modules[n]
    d = sys.modules.get("dissect")
    if d is not None and hasattr(d, "cstruct"):
        del d.cstruct
    import dissect.cstruct as dc

    assert dc.__file__.startswith(core.LIBDIR)
    try:
        dc.cstruct().load("struct warm_up { uint8 a; };")
    except Exception:  # noqa: BLE001
        pass


def generate(rng, tier):
    need = rng.sample(["exprarr", "bits", "union", "ptr", "enum", "nested", "leb", "wchar", "nullarr", "flag"], 4) + ["exprarr", "const"]
    g, prog, m = common.program(rng, need=need, maxstruct=3, topunion=0.12, dynunion=0.15, nocompile=0.1, density=0.45, custom=True, lebenum=True, explicit=0.08,
                               bigs=["fields", "deep"])
    if prog is None or any(common.endless(t) for t in m.types.values()):
        return None
    names = [s for s, _ in g.structs]
    nthreads = rng.choice([2, 2, 2, 3, 4])
    same = rng.random() < 0.8
    threads = []
    for _ in range(nthreads):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = prog["top"] if same else rng.choice(names)
            mt = m.types[s]
            d = gen.gen_data(m, mt, rng, 0, limit=400 if g.big else 260, big=False)
            if d is None:
                continue
            data = d[0] + (b"" if common.has_eof(m, mt) else rng.randbytes(rng.choice([0, 0, 40])))
            op = {"s": s, "data": data.hex(), "op": rng.choice(["parse", "parse", "parse", "parse", "dump", "deref", "default", "array", "modify", "build", "build", "kwargs"])}
            if data and rng.random() < 0.2:
                op["cut"] = rng.randrange(len(data))
            elif data and rng.random() < 0.1:
                op["bad"] = rng.randrange(len(data))
            ops.append(op)
        if not ops:
            return None
        threads.append(ops)
    k = rng.choice(["random", "random", "pct", "pct", "rr", "burst"])
    pol = {"kind": k, "seed": rng.getrandbits(32)}
    if k == "random":
        pol["p"] = rng.choice([0.02, 0.1, 0.3, 0.7])
    elif k == "pct":
        pol["d"], pol["len"] = rng.choice([1, 2, 3, 5, 8]), rng.choice([40, 100, 250, 600, 1500])
    elif k == "rr":
        pol["q"] = rng.choice([1, 2, 3, 5, 8, 13])
    else:
        pol["q"] = rng.choice([20, 60, 150])
    kill = {}
    if rng.random() < 0.25:
        kill = {str(rng.randrange(nthreads)): rng.randrange(1, 250)}
    fine = rng.choice([False] * 7 + [True] * 2 + ["op"]) if not g.big else False
    if fine == "op":
        kill = {}  # asynchronous exceptions arrive at line boundaries only
    return {"prog": prog, "compiled": rng.random() < 0.5, "threads": threads, "policy": pol, "switches": [],
            "fine": fine, "kill": kill, "warm": rng.random() < 0.3}


def mine(fn):
    return fn.startswith(core.LIBDIR) or fn.startswith("<compiled")


def run_ops(cs, ops, out, hook=None):
    """Perform the operations of one thread; every observation goes to out."""
    for op in ops:
        T = cs.resolve(op["s"])
        data = bytes.fromhex(op["data"])
        if "cut" in op:
            s = simio.SimFile(data[:op["cut"]], hook=hook)
        elif "bad" in op:
            s = simio.SimFile(data, bad=(op["bad"], "OSError"), hook=hook)
        else:
            s = simio.SimFile(data, hook=hook)
        res = []
        out.append(res)
        try:
            if op["op"] == "default":
                o = T()
                res.append(("default", o))
                res.append(("dumps", o.dumps()))
                continue
            if op["op"] == "array":
                A = T[2]
                res.append(("array", A.read(simio.SimFile(data + data)), A))
                continue
            o = T.read(s)
            res.append(("value", o, T))
            res.append(("pos", s.pos))
            if op["op"] == "deref":
                for f in T.__fields__:
                    v = getattr(o, f._name)
                    if hasattr(v, "dereference"):
                        try:
                            x = v.dereference()
                            res.append(("deref", repr(x)))
                        except Exception as e:  # noqa: BLE001
                            res.append(("deref", type(e).__name__))
                        res.append(("pos", s.pos))
            elif op["op"] == "dump":
                res.append(("dumps", o.dumps()))
                sink = simio.SimFile(hook=hook)
                res.append(("write", T.write(sink, o), bytes(sink.data)))
                res.append(("eq", o == o, bool(o)))
                res.append(("repr", repr(o), len(o)))
            elif op["op"] in ("build", "kwargs"):
                # an instance that was never parsed, with the values of the parsed one
                vals = {f._name: getattr(o, f._name) for f in T.__fields__ if f.name}
                if op["op"] == "kwargs":
                    n = T(**vals)
                else:
                    n = T()
                    for k, v in vals.items():
                        setattr(n, k, v)
                res.append(("built", n, T))
                res.append(("dumps", n.dumps()))
                res.append(("repr", repr(n)))
            elif op["op"] == "modify":
                for f in T.__fields__:
                    if f.name and f.type.size and not f.bits:
                        b = data[-f.type.size:].rjust(f.type.size, b"\x01")
                        setattr(o, f.name, f.type.read(b if f.type.size < 9 else bytes(f.type.size)))
                res.append(("modified", o, T))
                res.append(("dumps", o.dumps()))
        except Exception as e:  # noqa: BLE001
            res.append(("raised", type(e).__name__))


def plainify(out):
    """Observed values as comparable data (after all threads have finished)."""
    res = []
    for ops in out:
        r = []
        for x in ops:
            if len(x) == 3 and x[0] in ("value", "array", "modified", "built"):
                r.append((x[0], real.plain(x[1], x[2]), real.sizes(x[1], x[2])))
            elif x[0] == "default":
                r.append((x[0], real.plain(x[1], type(x[1]))))
            else:
                r.append(x)
        res.append(r)
    return res


def execute(plan, ctx):
    prog = plan["prog"]
    model = common.make_model(prog)
    for ops in plan["threads"]:
        for op in ops:
            if op["s"] not in model.types:
                raise core.Skip("type")
    alone = common.try_build(prog, plan["compiled"])
    cs = common.try_build(prog, plan["compiled"])
    want = []
    for ops in plan["threads"]:
        out = []
        if prog.get("big"):
            # operations that are slow on their own are not a matter of the interleaving
            one = sched.Scheduler([lambda ops=ops, out=out: run_ops(alone, ops, out)], sched.Policy({"kind": "explicit", "switches": []}, random.Random(0), 1),
                                  mine, limit=100000)
            try:
                one.run()
            except sched.StepBudget:
                raise core.Skip("slow") from None
        else:
            run_ops(alone, ops, out)
        want.append(plainify(out))
    if plan["warm"]:
        run_ops(cs, plan["threads"][0], [])
    else:
        ctx.stat("probe:first_use_concurrent")
    outs = [[] for _ in plan["threads"]]
    rng = random.Random(plan["policy"].get("seed", 0))
    spec = plan["policy"] if plan["policy"]["kind"] != "explicit" else {"kind": "explicit", "switches": plan["switches"]}
    pol = sched.Policy(spec, rng, len(outs))
    kill = {int(t): (n, KeyboardInterrupt("injected interruption")) for t, n in plan["kill"].items()}
    sc = sched.Scheduler([(lambda ops=ops, out=out: run_ops(cs, ops, out, lambda *a: sc.stream_point())) for ops, out in zip(plan["threads"], outs)],
                         pol, mine, plan["fine"], kill=kill)
    text = gen.text(prog)

    def fail(cls, msg):
        ctx.hint = {"policy": {"kind": "explicit"}, "switches": sc.switches}
        ctx.fail(cls, f"{msg}\ncompiled={plan['compiled']} schedule (step, from, to, function, line):\n" +
                 "\n".join(map(repr, sc.where[-60:])) + f"\n{text}")

    try:
        results = sc.run()
    except sched.Deadlock as e:
        fail("deadlock", f"{e}: {plan['threads']}")
    except sched.StepBudget as e:
        fail("no-termination", f"threads did not finish: {e}")
    done = 0
    for t, ops in enumerate(plan["threads"]):
        got = plainify(outs[t])
        if t in sc.killed:
            ctx.stat("fault:thread_interrupted")
            got = got[:-1]  # the operation that was broken off
        elif results[t][0] == "raised":
            raise results[t][1]
        ref = want[t][:len(got)]
        for k, (a, b) in enumerate(zip(got, ref)):
            if a != b:
                diff = next(((x, y) for x, y in zip(a, b) if x != y), (a, b))
                fail("differs", f"thread {t} operation {k} ({ops[k]}) observed\n{diff[0]!r}\nalone it observes\n{diff[1]!r}")
            done += 1
            ctx.stat("op:" + ops[k]["op"])
            ctx.stat("fault:truncated_stream", "cut" in ops[k])
            ctx.stat("fault:device_error", "bad" in ops[k])
        if t not in sc.killed and len(got) != len(want[t]):
            fail("differs", f"thread {t} performed {len(got)} operations, alone {len(want[t])}")
    # nothing may be left behind
    for t, ops in enumerate(plan["threads"]):
        out = []
        run_ops(cs, ops, out)
        if plainify(out) != want[t]:
            fail("left-behind", f"after the threads finished, the operations of thread {t} give {plainify(out)!r}, expected {want[t]!r}")
    feats = common.features(prog)
    ctx.stat("probe:expression_shared", "expr" in feats)
    ctx.stat("probe:union_shared", any("union" in f for f in feats))
    ctx.stat("probe:bitfield_shared", "bits" in feats)
    ctx.stat("probe:pointer_shared", "ptr" in feats)
    ctx.stat("probe:fine_grained", plan["fine"] is True)
    ctx.stat("probe:instruction_level", plan["fine"] == "op")
    ctx.stat("probe:thread_died", len(sc.killed))
    ctx.stat("probe:same_type" if len({op["s"] for o in plan["threads"] for op in o}) == 1 else "probe:different_types")
    ctx.stat("schedule:" + plan["policy"]["kind"])
    ctx.stat("context_switches", len(sc.switches))
    for p in sc.points:
        ctx.state(p)
    for i, a in enumerate(sc.where[1:]):
        ctx.state("pair", sc.where[i][3], a[3])
    ctx.log("schedule", sc.step, sc.switches)
    ctx.log("results", [[repr(x) for x in r] for r in want])
    ctx.steps += sc.step
    ctx.nontrivial = done >= 2 and len(sc.where) >= 3


def shrink(plan):
    import copy

    if plan["policy"]["kind"] == "explicit":
        # far fewer switches: short windows first
        sw = plan["switches"]
        for n in (1, 2, 3, 4, 6, 10):
            if len(sw) > n:
                for a in range(0, len(sw), max(1, len(sw) // 60)):
                    yield {**copy.deepcopy(plan), "switches": sw[a:a + n]}
    for t in range(len(plan["threads"])):
        if len(plan["threads"][t]) > 1:
            for k in range(len(plan["threads"][t])):
                p = copy.deepcopy(plan)
                del p["threads"][t][k]
                yield p
        for k in range(len(plan["threads"][t])):
            if plan["threads"][t][k]["op"] != "parse":
                p = copy.deepcopy(plan)
                p["threads"][t][k]["op"] = "parse"
                yield p
            for key in ("cut", "bad"):
                if key in plan["threads"][t][k]:
                    p = copy.deepcopy(plan)
                    del p["threads"][t][k][key]
                    yield p
    if len(plan["threads"]) > 2 and plan["policy"]["kind"] == "explicit":
        p = copy.deepcopy(plan)
        del p["threads"][-1]
        p["switches"] = [s for s in p["switches"] if max(s[0], s[2]) < len(p["threads"])]
        yield p
    if plan["fine"] == "op":
        yield {**copy.deepcopy(plan), "fine": True}
    for key, v in (("kill", {}), ("fine", False), ("warm", False)):
        if plan[key] != v:
            yield {**copy.deepcopy(plan), key: v}
