"""C03: generated (compiled) readers are observationally equivalent to the interpreted reader.

One run = one definition loaded several ways (interpreted; compiled; per-definition mix of both; compiled with the source
generator made to fail at chosen points) and the same streams, including streams that end early or fail at a device offset,
replayed against all of them.
"""

from __future__ import annotations

import random
import sys

from .. import core, gen, real, simio
from .. import model as M
from . import common

RUNS = {"quick": 18000, "thorough": 250000}
RULE = ("one run = one random definition x {interpreted, compiled, per-definition mix, compiled with injected generator failures} "
        "x 2-6 inputs (generated, random, truncated at sampled cut points, device error at sampled offsets); compared: layout, "
        "values, recorded sizes, consumed bytes, dereferenced pointers, no contradicting values; non-trivial = at least one "
        "structure really got a generated reader or was forced to fall back and at least 2 complete inputs were compared")
STATE_MEASURE = "distinct (variant, program feature set, outcome pair); plus generated-source shapes (hash of the source with names removed)"
REAL = ["all of dissect.cstruct (parser, compiler and generated code, types)"]
STUB = ["file object (simio.SimFile)"]
ASSUMPTIONS = ["generator failures are raised as exceptions at line events inside compiler.py below compile_read",
               "a value returned by one reader on a truncated input while the other raises is only a contradiction when it "
               "differs from the value of the complete input (padding may legitimately be skipped or read)"]
PROBES = ["endian_switched", "custom_type", "generated_reader", "natural_fallback", "forced_fallback", "mixed_nesting", "unsupported_field_type", "cut_both_raise",
          "cut_one_returns", "deref_compared"]
FAULTS = ["generator_exception", "cut", "device_error"]
LISTS = ("datas", "cfault")

GEXC = {"TypeError": TypeError, "MemoryError": MemoryError, "KeyError": KeyError, "RecursionError": RecursionError,
        "ValueError": ValueError, "SyntaxError": SyntaxError}


class GenFault:
    """Trace-based fault injector for the source generator: raises at chosen line events below compile_read."""

    def __init__(self, at=()):
        self.at = dict(at)
        self.n = 0
        self.depth = 0
        self.fired = []
        self.file = core.LIBDIR + "compiler.py"

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def glob(self, frame, event, arg):
        co = frame.f_code
        if co.co_filename != self.file:
            return None
        f = frame
        while f is not None:
            if f.f_code.co_name == "compile_read" and f.f_code.co_filename == self.file:
                return self.local
            f = f.f_back
        return None

    def local(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n += 1
            if n in self.at:
                self.fired.append(n)
                raise GEXC[self.at[n]](f"injected generator failure at line event {n}")
        return self.local


def generate(rng, tier):
    g, prog, m = common.program(rng, nocompile=0.08, maxstruct=4, topunion=0.1, voidfield=True, dynunion=0.3, custom=True, lebenum=True, explicit=0.15, overlap=True)
    if prog is None:
        return None
    names = [s for s, _ in g.structs]
    datas = []
    for _ in range(rng.randrange(2, 5)):
        s = prog["top"] if rng.random() < 0.7 else rng.choice(names)
        mt = m.types[s]
        al = mt.align if prog["align"] else 1
        pos = rng.choice([0, 0, al * rng.randrange(0, 7)])
        # byte order of the object at the time of parsing
        m.endian = rng.choice([prog["endian"], prog["endian"], "<", ">", "!"])
        if mt.size is not None and rng.random() < 0.3:
            data = rng.randbytes(mt.size + rng.choice([0, 3]))
        else:
            d = gen.gen_data(m, mt, rng, pos, limit=600)
            if d is None:
                continue
            data = d[0] + (b"" if common.has_eof(m, mt) else rng.randbytes(rng.choice([0, 0, 2, 9])))
        datas.append({"s": s, "data": data.hex(), "pos": pos, "endian": m.endian})
    if not datas:
        return None
    return {"prog": prog, "datas": datas, "mix": [rng.random() < 0.5 for _ in prog["decls"]],
            "cfault": [{"at": rng.randrange(0, 1000), "exc": rng.choice(sorted(GEXC))} for _ in range(rng.randrange(1, 3))],
            "cuts": 10 if tier == "quick" else 40, "fseed": rng.getrandbits(32), "only": None}


def load_mixed(prog, mix):
    from dissect.cstruct import cstruct

    cs = cstruct(endian=prog["endian"], pointer=prog["pointer"])
    real.add_custom(cs, prog)
    for d, c in zip(prog["decls"], mix):
        real.load(cs, [d], c, bool(prog["align"]))
    return cs


def occupied(sz):
    """Recorded sizes of fields that occupy bytes."""
    if sz is None:
        return None
    return {k: (occupied(v) if isinstance(v, dict) else v) for k, v in sz.items() if isinstance(v, dict) or v}


def derefs(o, T, model, mt, whole, ctx, out, path=(), fields=None):
    """Dereference every pointer whose target the model can parse from this stream (given the fields of its structure)."""
    if isinstance(mt, M.TStruct) and not mt.union:
        fields = {}
        for f, lf in zip(mt.fields, T.__fields__):
            M.Model._ctx(fields, f, real.plain(getattr(o, lf._name), lf.type, f.bits))
        for f, lf in zip(mt.fields, T.__fields__):
            if not f.bits:
                derefs(getattr(o, lf._name), lf.type, model, f.type, whole, ctx, out, (*path, f.name), fields)
    elif isinstance(mt, M.TArray) and isinstance(o, list):
        for i, x in enumerate(o[:4]):
            derefs(x, T.type, model, mt.elem, whole, ctx, out, (*path, i), fields)
    elif isinstance(mt, M.TPtr) and int(o):
        tgt = mt.target
        if isinstance(tgt, M.TVoid):
            return
        if isinstance(tgt, M.TChar):
            tgt = M.TArray(tgt, None)
        if model.aligned and int(o) % tgt.align:
            return
        try:
            model.read(tgt, M.Source(whole), int(o), fields)
        except (M.Short, M.Invalid, RecursionError):
            return
        try:
            r = o.dereference()
        except Exception as e:  # noqa: BLE001
            out.append((path, "raise", type(e).__name__))
            return
        ctx.stat("probe:deref_compared")
        out.append((path, bytes(r) if isinstance(mt.target, M.TChar) else real.plain(r, T.type)))


def observe(cs, s, arg, model=None, whole=None, ctx=None):
    T = cs.resolve(s)
    try:
        o = T.read(arg)
    except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
        return ("raise", e)
    end = arg.pos
    d = []
    if model is not None:
        derefs(o, T, model, model.types[s], whole, ctx, d)
    return ("value", real.plain(o, T), occupied(real.sizes(o, T)), end, d)


def execute(plan, ctx):
    prog = plan["prog"]
    model = common.make_model(prog)
    ref = common.try_build(prog, False)
    names = [n for d in prog["decls"] if d["k"] in ("struct", "union") for n in [d["name"], *d.get("aliases", [])]]
    text = gen.text(prog)
    variants = []
    for name in ("compiled", "mixed", "genfault"):
        if plan["only"] and plan["only"] != name:
            continue
        ctx.hint = {"only": name}
        try:
            if name == "compiled":
                cs = real.build(prog, True)
            elif name == "mixed":
                cs = load_mixed(prog, plan["mix"])
                ctx.stat("probe:mixed_nesting")
            else:
                with GenFault() as probe:
                    real.build(prog, True)
                if not probe.n:
                    ctx.stat("generator_not_reached")
                    continue
                at = {min(probe.n - 1, f["at"] * probe.n // 1000): f["exc"] for f in plan["cfault"]}
                with GenFault(at) as inj:
                    cs = real.build(prog, True)
                ctx.stat("fault:generator_exception", len(inj.fired))
                if inj.fired:
                    ctx.stat("probe:forced_fallback")
        except Exception as e:  # noqa: BLE001
            ctx.fail("load-fails", f"variant {name}: loading raised {e!r}, interpreted loading works\n{text}")
        variants.append((name, cs))
        for n in names:
            T = cs.resolve(n)
            c = getattr(T, "__compiled__", False)
            ctx.stat("probe:generated_reader" if c else "probe:natural_fallback")
            src = getattr(getattr(T._read, "__func__", None), "__source__", None) if c else None
            if src:
                import re

                ctx.state("src", re.sub(r'"[^"]*"|\d+', "_", src))
            lr, lv = real.layout(ref.resolve(n)), real.layout(T)
            ctx.check(lr == lv, "layout", lambda n=n, lr=lr, lv=lv, name=name:
                      f"variant {name}: layout of {n} is {lv}, interpreted {lr}\n{text}")
    feats = common.features(prog)
    ctx.stat("probe:custom_type", "cust" in text or "cfix" in text)
    if {"uleb", "ileb"} & set(feats):
        ctx.stat("probe:unsupported_field_type")
    rng = random.Random(plan["fseed"])
    complete = 0
    for item in plan["datas"]:
        s = item["s"]
        if s not in model.types:
            raise core.Skip("no such structure")
        data, pos = bytes.fromhex(item["data"]), item["pos"]
        mt = model.types[s]
        for x in [model, ref, *(v for _, v in variants)]:
            x.endian = item["endian"]
        ctx.stat("probe:endian_switched", item["endian"] != prog["endian"])
        if prog["align"] and pos % mt.align:
            raise core.Skip("unaligned")
        whole = rng.randbytes(pos) + data
        # keep the run bounded: inputs the model cannot digest may request absurd element counts
        try:
            model.read(mt, M.Source(whole), pos)
        except (M.Invalid, M.Short) as e:
            raise core.Skip(repr(e)) from None
        base = observe(ref, s, simio.SimFile(whole, pos), model, whole, ctx)
        eof = common.has_eof(model, mt)
        for name, cs in variants:
            ctx.hint = {"only": name, "datas": [item]}
            got = observe(cs, s, simio.SimFile(whole, pos), model, whole, ctx)
            where = f"variant {name}, {s} at {pos}, data {data.hex()}"
            ctx.log(name, s, got[0], got[1] if got[0] == "value" else type(got[1]).__name__)
            ctx.state(name, feats, got[0], base[0])
            if base[0] != got[0]:
                ctx.fail("outcome", f"{where}: {got!r}, interpreted {base!r}\n{text}")
            if base[0] == "raise":
                continue
            for i, what in ((1, "value"), (2, "sizes"), (3, "consumed"), (4, "deref")):
                if base[i] != got[i]:
                    ctx.fail(what, f"{where}: {what} {got[i]!r}, interpreted {base[i]!r}\n{text}")
            complete += 1
        if base[0] == "raise":
            continue
        cuts = rng.sample(range(len(data)), min(len(data), plan["cuts"]))
        for c in cuts:
            device = rng.random() < 0.25
            exc = rng.choice(["OSError", "Abort", "MemoryError"])

            def stream(c=c, device=device, exc=exc):
                if device:
                    return simio.SimFile(whole, pos, bad=(pos + c, exc))
                return simio.SimFile(whole[:pos + c], pos)

            a = observe(ref, s, stream())
            for name, cs in variants:
                ctx.hint = {"only": name, "datas": [item]}
                b = observe(cs, s, stream())
                ctx.stat("fault:device_error" if device else "fault:cut")
                ctx.log(name, s, c, device, b[0])
                where = f"variant {name}, {s} at {pos}, {'device error at' if device else 'input cut at'} {c}, data {data.hex()}"
                if a[0] == b[0] == "value":
                    if a[1:4] != b[1:4]:
                        ctx.fail("truncated-value", f"{where}: {b!r}, interpreted {a!r}\n{text}")
                elif a[0] == b[0]:
                    ctx.stat("probe:cut_both_raise")
                else:
                    ctx.stat("probe:cut_one_returns")
                    got = a if a[0] == "value" else b
                    if not eof and got[1] != base[1]:
                        ctx.fail("truncated-contradiction", f"{where}: one reader returned {got!r}, the complete input gives "
                                 f"{base!r}\n{text}")
    ctx.hint = None
    ctx.nontrivial = complete >= 2
