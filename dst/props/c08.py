"""C08: truncated or failing input never fabricates data; failures leave no residue.

One run draws one program, one accepted input and, for both readers, visits every cut point and every stream call of the
baseline parse, injecting one fault kind after the other (all on the *same* type objects), with a clean parse after each.
"""

from __future__ import annotations

import io
import random

from .. import core, gen, real, simio
from .. import model as M
from . import common

RUNS = {"quick": 10000, "thorough": 120000}
RULE = ("one run = one random definition + one accepted input; in both reader modes every cut point (<=140, sampled above) "
        "over file/bytes/bytearray/memoryview/BufferedReader-over-short-reading-raw inputs and every stream call of the "
        "baseline parse (<=70 reads, sampled above) x {raise, short, None} is executed, each followed by a clean parse; "
        "non-trivial = at least one injected fault made the library raise and at least 5 scenarios ran; "
        "distinct = digest of the full event log")
STATE_MEASURE = "distinct (reader mode, fault kind, stream op, innermost library function raising, exception type, outcome)"
REAL = ["all of dissect.cstruct (parser, compiler, types, bitbuffer, expression)", "io.BytesIO", "io.BufferedReader"]
STUB = ["file object (simio.SimFile)", "raw device under io.BufferedReader (simio.SimRaw)"]
ASSUMPTIONS = ["the reference model decides which bytes carry data; runs where the library's clean parse differs from the "
               "model are skipped (other properties decide those)",
               "a library that hides a fault by retrying and still returns the complete input's value is accepted"]
PROBES = ["cut_in_last_field", "eof_array_prefix", "cut_in_padding_returns", "residue_check",
          "short_read_hidden"]
FAULTS = ["cut", "short", "none", "raise"]
BYTES = ("data", "tail")
NUMS = ("pos",)

EXCS = ["OSError", "Abort", "EOFError", "MemoryError", "ValueError", "Interrupt", "Blocking"]


def generate(rng, tier):
    g, prog, m = common.program(rng, nocompile=0.1, dynunion=0.3, custom=True, lebenum=True, explicit=0.12, overlap=True)
    if prog is None:
        return None
    t = ["n", prog["top"]]
    if rng.random() < 0.2:
        t = common.direct_type(rng, g)
    mt = m.type(t)
    al = mt.align if prog["align"] else 1
    pos = rng.choice([0, 0, al * rng.randrange(0, 9)])
    d = gen.gen_data(m, mt, rng, pos, limit=700)
    if d is None:
        return None
    tail = b"" if common.has_eof(m, mt) else rng.randbytes(rng.choice([0, 0, 1, 5, 16]))
    return {"prog": prog, "t": t, "data": d[0].hex(), "pos": pos, "tail": tail.hex(), "scen": None, "mode": None,
            "fseed": rng.getrandbits(32)}


def scenarios(plan, data, counts, reads, rng, eof):
    """Explicit scenario list of one mode."""
    out = []
    cuts = list(range(len(data)))
    # large inputs: fewer scenarios, and cuts also at round places
    cost = max(1, len(data) / 700, (counts["read"] + counts["seek"] + counts["tell"]) / 200)
    if len(cuts) > 140 / cost:
        some = rng.sample(cuts, max(10, int(140 / cost)))
        if cost > 1:
            some += [c for c in (len(data) - 1, len(data) - 2, len(data) // 2) if c not in some]
            some += [c for c in (256, 512, 1024, 2048, 4096) if c < len(data) and c not in some]
        cuts = sorted(some)
    for c in cuts:
        out.append(["cut", "file", c])
        k = rng.choice(["bytes", "bytearray", "memoryview", "buffered", None])
        if k == "buffered":
            out.append(["cut", k, c, [rng.randrange(1, 9) for _ in range(4)]])
        elif k and plan["pos"] == 0:
            out.append(["cut", k, c])
    js = list(range(counts["read"]))
    if len(js) > 70 / cost:
        js = sorted(rng.sample(js, min(len(js), max(8, int(70 / cost)))))
    for j in js:
        out.append(["fault", {"op": "read", "at": j, "kind": "raise", "exc": rng.choice(EXCS)}])
        n = reads[j] or 0
        for keep in {0, n // 2, n - 1, rng.randrange(0, n) if n else 0}:
            if 0 <= keep < n:
                out.append(["fault", {"op": "read", "at": j, "kind": "short", "keep": keep}])
        if rng.random() < 0.5:
            out.append(["fault", {"op": "read", "at": j, "kind": "none"}])
    for op in ("seek", "tell"):
        js = list(range(counts[op]))
        if len(js) > 25 / cost:
            js = sorted(rng.sample(js, min(len(js), max(4, int(25 / cost)))))
        for j in js:
            out.append(["fault", {"op": op, "at": j, "kind": "raise", "exc": rng.choice(EXCS)}])
    rng.shuffle(out)
    return out


def eof_split(model, mt, v):
    """(value without the to-end-of-stream array, array elements or None)."""
    if isinstance(mt, M.TArray):
        return None, v[1]
    return v[1][:-1], v[1][-1][1][1]


def execute(plan, ctx):
    prog, t = plan["prog"], plan["t"]
    model = common.make_model(prog)
    data, tail = bytes.fromhex(plan["data"]), bytes.fromhex(plan["tail"])
    pos = plan["pos"]
    try:
        mt = model.type(t)
    except (M.Invalid, KeyError) as e:
        raise core.Skip(repr(e)) from None
    if prog["align"] and pos % mt.align:
        raise core.Skip("unaligned")
    v, last, end, extents = common.expected(model, t, data, pos)
    data = data[:end] if not common.has_eof(model, mt) else data
    eof = common.has_eof(model, mt)
    must = last  # cutting below this must raise
    if eof:
        tail = b""
        if isinstance(mt, M.TArray):
            must = 0
        else:
            head = M.TStruct("", [M.F(f.name, f.type, f.bits, f.explicit) for f in mt.fields[:-1]], False, mt.aligned)
            src = M.Source(bytes(pos) + data)
            model.read(head, src, pos)
            must = max(0, src.last() - pos)
    prefix = random.Random(plan["fseed"]).randbytes(pos)
    whole = prefix + data + tail

    def norm(T, o):
        return real.plain(o, T)

    def acceptable(got, whole=False):
        if not eof or whole:
            return got == v
        h0, e0 = eof_split(model, mt, v)
        try:
            h1, e1 = eof_split(model, mt, got)
            return h0 == h1 and e1 == e0[:len(e1)]
        except (TypeError, IndexError):
            return False

    raised = ran = 0
    modes = [True, False] if plan["mode"] is None else [plan["mode"]]
    for mode in modes:
        cs = common.try_build(prog, mode)
        T = real.typ(cs, t)
        base = simio.SimFile(whole, pos)
        try:
            o = T.read(base)
            got = norm(T, o)
        except Exception as e:  # noqa: BLE001
            raise core.Skip(f"baseline parse failed {e!r}") from None
        if got != v:
            raise core.Skip("baseline differs from the model")
        reads = [x[3] for x in base.log if x[0] == "read"]
        limit = base.steps * 40 + 2000
        counts = dict(base.counts)
        if mode and hasattr(T, "__compiled__") and T.__compiled__:
            ctx.stat("compiled_readers")
        ctx.log("base", mode, counts)
        rng = random.Random(plan["fseed"] + mode)
        scen = plan["scen"] if plan["scen"] is not None else scenarios(plan, data, counts, reads, rng, eof)
        for sc in scen:
            ctx.hint = {"scen": [sc], "mode": mode}
            ran += 1
            err = None
            if sc[0] == "cut":
                c = sc[2]
                if c >= len(data):
                    continue
                cutdata = prefix + data[:c]
                kind = sc[1]
                if kind in ("bytes", "bytearray", "memoryview"):
                    if pos:
                        continue
                    arg = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[kind](cutdata)
                elif kind == "buffered":
                    arg = io.BufferedReader(simio.SimRaw(cutdata, sc[3]), 8)
                    arg.seek(pos)
                else:
                    arg = simio.SimFile(cutdata, pos, limit=limit)
                ctx.stat("fault:cut")
                try:
                    r = T.read(arg)
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    err = e
                if err is None:
                    got = norm(T, r)
                    ctx.log(sc, "value")
                    if not acceptable(got):
                        ctx.fail("fabricated-on-cut", f"compiled={mode} input cut at {c} of {len(data)} ({kind}, last data byte "
                                 f"{must}): returned {got!r}, complete input gives {v!r}\n{gen.text(prog)}")
                    if c < must:
                        ctx.fail("value-from-truncated-input", f"compiled={mode} input cut at {c} ({kind}) before the last data "
                                 f"byte {must} returned a value {got!r}\n{gen.text(prog)}")
                    ctx.stat("probe:eof_array_prefix" if eof else "probe:cut_in_padding_returns")
                else:
                    raised += 1
                    ctx.log(sc, type(err).__name__)
                    if c < must and not isinstance(err, EOFError) and not eof:
                        ctx.fail("wrong-error-on-cut", f"compiled={mode} input cut at {c} of {len(data)} ({kind}): raised "
                                 f"{err!r} instead of EOFError\n{gen.text(prog)}")
                    if c >= must - 4:
                        ctx.stat("probe:cut_in_last_field")
                ctx.state(mode, "cut", kind, err and common.where(err), type(err).__name__)
            else:
                f = sc[1]
                arg = simio.SimFile(whole, pos, faults=[f], limit=limit)
                try:
                    r = T.read(arg)
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    err = e
                if not arg.fired:
                    ctx.stat("fault_not_reached")
                    continue
                ctx.stat(f"fault:{f['kind']}" + (f":{f['op']}:{f['exc']}" if f["kind"] == "raise" else ""))
                ctx.stat("fault:raise", f["kind"] == "raise")
                if err is None:
                    got = norm(T, r)
                    ctx.log(sc, "value")
                    # a stream that raises has not ended: the extent of a to-end-of-stream array may not shrink
                    if not acceptable(got, f["kind"] == "raise"):
                        ctx.fail("fabricated-on-fault", f"compiled={mode} fault {f}: returned {got!r}, without the fault "
                                 f"{v!r}\n{gen.text(prog)}")
                    if f["kind"] == "short":
                        ctx.stat("probe:short_read_hidden")
                else:
                    raised += 1
                    ctx.log(sc, type(err).__name__)
                ctx.state(mode, f["kind"], f["op"], f.get("exc"), err and common.where(err), type(err).__name__)
            # no residue: a clean parse with the same types gives what it gave before
            ctx.stat("probe:residue_check")
            arg = simio.SimFile(whole, pos, limit=limit)
            try:
                got = norm(T, T.read(arg))
            except Exception as e:  # noqa: BLE001
                ctx.fail("residue", f"compiled={mode} after {sc} (which ended in {err!r}) a clean parse raised {e!r}\n{gen.text(prog)}")
            if got != v or arg.pos != base.pos:
                ctx.fail("residue", f"compiled={mode} after {sc} (which ended in {err!r}) a clean parse gave {got!r} at "
                         f"{arg.pos}, before {v!r} at {base.pos}\n{gen.text(prog)}")
        ctx.hint = None
    ctx.stat("scenarios", ran)
    ctx.nontrivial = raised > 0 and ran >= 5
