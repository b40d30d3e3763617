"""C05: scalar codecs follow the byte order currently set, for every type and across runtime changes of the byte order.

One run = a history over two cstruct objects with the same definitions: change of byte order, parse, dump, encode/decode of
boundary values, dereference, operations broken off by a stream fault; types are looked up once, before the history starts.
"""

from __future__ import annotations

import random

from .. import core, gen, real, simio
from .. import model as M
from . import common

RUNS = {"quick": 18000, "thorough": 300000}
RULE = ("one run = one definition loaded into two cstruct objects (compiled or not) and a history of 12-40 operations: set byte "
        "order (<, >, !), parse, parse-then-dump under another byte order, encode/decode boundary scalars by every alias, "
        "arrays, pointers dereferenced under a later byte order, reads/writes broken off by stream faults; each result compared "
        "with an independent codec; non-trivial = at least one change of byte order lies between load and a compared operation "
        "and at least 6 comparisons were made; distinct = event log digest")
STATE_MEASURE = "distinct (operation, type kind and width, byte order at load, byte order now, reader mode)"
REAL = ["all of dissect.cstruct"]
STUB = ["file object (simio.SimFile)"]
ASSUMPTIONS = ["the native byte-order codes @ and = are outside the property", "NaN payloads are not compared"]
PROBES = ["switch_then_compiled_struct", "read_then_dump_other_order", "decode_boundary", "encode_boundary", "overflow_rejected",
          "deref_after_switch", "two_objects_different_order", "other_form", "enum_array_raw_ints"]
FAULTS = ["read_raise", "read_short", "write_raise"]
LISTS = ("ops",)

SCALARS = [n for n in M.BUILTIN if n not in ("void", "cust", "cfix")]
ENDS = ["<", ">", "!"]


def boundary(rng, name):
    kind, size, signed, _ = M.BUILTIN[name]
    if kind == "int":
        bits = size * 8
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        v = rng.choice([lo, hi, 0, 1, lo + 1, hi - 1, -1, hi >> 1, (hi >> 1) + 1, 0x80, 0xFF, 0x100, 0x7F, 0x8000, rng.randrange(lo, hi + 1),
                        int.from_bytes(bytes(range(1, size + 1)), "big"), -2, lo >> 1])
        return max(lo, min(hi, v))
    if kind == "leb":
        v = rng.choice([0, 1, 63, 64, 127, 128, 8191, 8192, 16383, 16384, (1 << 31) - 1, 1 << 31, (1 << 63), (1 << 64) - 1,
                        rng.getrandbits(rng.randrange(1, 130))])
        if signed and rng.random() < 0.5:
            v = -v - rng.randrange(0, 2)
        return v
    if kind == "float":
        return rng.choice([0.0, 1.0, -1.0, 0.5, -2.25, 1024.0, 65504.0, float("inf"), -float("inf"), 6.103515625e-05, 3.140625])
    if kind == "char":
        return bytes([rng.randrange(256)]).hex()
    return rng.choice(["A", "\0", "\xe9", "\u20ac", "\u0100", "\u00ff", "\ufffd", "\ud7ff", "\ue000", chr(rng.randrange(1, 0xD800))])


def generate(rng, tier):
    g, prog, m = common.program(rng, nocompile=0.05, maxstruct=3, lebenum=True, explicit=0.1)
    if prog is None:
        return None
    ends = [prog["endian"], prog["endian"]]
    ops = []
    n = rng.randrange(12, 41)
    while len(ops) < n:
        c = rng.randrange(2)
        x = rng.random()
        m.endian = ends[c]
        if x < 0.25:
            ends[c] = rng.choice(ENDS)
            ops.append({"op": "endian", "c": c, "e": ends[c]})
            continue
        if x < 0.6:
            t = ["n", rng.choice(g.structs)[0]] if rng.random() < 0.7 else common.direct_type(rng, g)
            mt = m.type(t)
            d = gen.gen_data(m, mt, rng, 0, limit=400)
            if d is None:
                n -= 1
                continue
            op = {"op": "read", "c": c, "t": t, "data": d[0].hex()}
            if rng.random() < 0.5:
                op["op"] = "redump"
                op["e2"] = rng.choice(ENDS)
                op["how"] = rng.choice(["dumps", "tdumps", "write"])
                ends[c] = op["e2"]
            elif rng.random() < 0.25:
                op["f"] = {"op": "read", "at": rng.randrange(0, 6), "kind": rng.choice(["raise", "short"]), "exc": "OSError",
                           "keep": rng.randrange(0, 3)}
            ops.append(op)
        elif x < 0.64 and g.enums:
            # arrays of an enum or flag, written from members, raw integers or both
            name = rng.choice(g.enums)
            base = m.types[name].base
            k = rng.choice([1, 2, 3, 3, 8])
            ops.append({"op": "enums", "c": c, "n": name, "vals": [
                rng.choice(sorted(m.types[name].members.values()) + [boundary(rng, base.name)]) for _ in range(k)],
                "raw": rng.getrandbits(k) if rng.random() < 0.8 else 0, "nul": rng.random() < 0.4, "how": rng.choice(["tdumps", "write", "dumps"])})
        elif x < 0.92:
            name = rng.choice(SCALARS)
            alias = rng.choice([name, *M.SYNONYMS.get(name, [])])
            k = rng.choice([1, 1, 1, 2, 3, 0]) if rng.random() < 0.96 else rng.choice([8, 17, 64, 255, 256, 300])
            arr = rng.random() < 0.4 or k != 1
            vals = [boundary(rng, name) for _ in range(k)]
            if name == "wchar" and arr and k and rng.random() < 0.3:
                vals[rng.randrange(k)] = chr(rng.choice([0x10000, 0x1F600, 0x10FFFF, rng.randrange(0x10000, 0x110000)]))
            ops.append({"op": "scalar", "c": c, "n": name, "alias": alias, "vals": vals,
                        "arr": arr, "nul": rng.random() < 0.3, "how": rng.choice(["tdumps", "write", "dumps"]),
                        "wf": rng.random() < 0.1, "form": rng.choice([None, None, None, "str", "int", "tuple"])})
        else:
            name = rng.choice([s for s in SCALARS if M.BUILTIN[s][0] in ("int", "float", "wchar")])
            e2 = rng.choice(ENDS)
            ops.append({"op": "deref", "c": c, "n": name, "addr": rng.randrange(16, 40), "e2": e2, "seed": rng.getrandbits(32)})
            ends[c] = e2
    return {"prog": prog, "compiled": rng.random() < 0.6, "ops": ops}


def plain_scalar(name, v):
    kind = M.BUILTIN[name][0]
    if kind in ("int", "leb"):
        return v
    if kind == "float":
        return ("f", repr(float(v)))
    if kind == "char":
        return ("c", bytes.fromhex(v))
    return ("w", v)


def masked_equal(a, b, mask):
    return len(a) == len(b) and all((x ^ y) & k == 0 for x, y, k in zip(a, b, mask))


def execute(plan, ctx):
    prog = plan["prog"]
    model = common.make_model(prog)
    css = [common.try_build(prog, plan["compiled"]) for _ in range(2)]
    text = gen.text(prog)
    names = [d["name"] for d in prog["decls"] if d["k"] in ("struct", "union")]
    held = [{n: cs.resolve(n) for n in names} for cs in css]  # looked up before any change of byte order
    ends = [prog["endian"]] * 2
    changed = [False, False]
    compared = late = 0

    def typ(c, t):
        if t[0] == "n" and t[1] in held[c]:
            return held[c][t[1]]
        return real.typ(css[c], t)

    def switch(c, e):
        changed[c] = changed[c] or e != prog["endian"]
        ends[c] = e
        css[c].endian = e

    for k, op in enumerate(plan["ops"]):
        c = op["c"]
        model.endian = ends[c]
        where = f"compiled={plan['compiled']} op {k} {op} byte order {ends[c]} (loaded with {prog['endian']})"
        if ends[0] != ends[1]:
            ctx.stat("probe:two_objects_different_order")
        if op["op"] == "endian":
            switch(c, op["e"])
            ctx.log("endian", c, op["e"])
            continue
        ctx.hint = None
        if op["op"] in ("read", "redump"):
            try:
                T, mt = typ(c, op["t"]), model.type(op["t"])
            except (M.Invalid, KeyError) as e:
                raise core.Skip(repr(e)) from None
            data = bytes.fromhex(op["data"])
            src = M.Source(data)
            try:
                v, end = model.read(mt, src, 0)
            except (M.Invalid, M.Short):
                ctx.stat("op_outside_model")
                if op["op"] == "redump":
                    switch(c, op["e2"])
                continue
            if "f" in op:
                f = simio.SimFile(data, faults=[op["f"]])
                try:
                    T.read(f)
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    ctx.log(k, "faulted", type(e).__name__)
                if f.fired:
                    ctx.stat("fault:read_" + op["f"]["kind"])
            try:
                o = T.read(simio.SimFile(data))
            except Exception as e:  # noqa: BLE001
                ctx.fail("raised", f"{where}: parsing raised {e!r}, expected {v!r}\n{text}")
            got = real.plain(o, T)
            ctx.check(got == v, "decode", lambda: f"{where}: decoded {got!r}, expected {v!r}\n{text}")
            compared += 1
            late += changed[c]
            if changed[c] and getattr(T, "__compiled__", False):
                ctx.stat("probe:switch_then_compiled_struct")
            ctx.log(k, op["op"], c, ends[c], end)
            ctx.state(op["op"], kind_of(mt), prog["endian"], ends[c], plan["compiled"])
            if op["op"] == "redump":
                switch(c, op["e2"])
                model.endian = op["e2"]
                if "'nan'" in repr(v) or has_union(mt):
                    continue
                try:
                    want, mask = model.encode(mt, v)
                except (M.Invalid, UnicodeEncodeError):
                    continue
                out = dump(T, o, op["how"])
                ctx.check(masked_equal(out, want, mask), "encode", lambda: f"{where}: parsed {v!r}, dumped under {op['e2']} as "
                          f"{out.hex()}, expected {want.hex()} (mask {mask.hex()})\n{text}")
                ctx.stat("probe:read_then_dump_other_order")
                compared += 1
                late += 1
        elif op["op"] == "enums":
            try:
                mt = model.types[op["n"]]
                E = css[c].resolve(op["n"])
                vals = [v & (1 << 31) - 1 if mt.flag else v for v in op["vals"]]
                vals = [v for v in vals if v >= 0 or not mt.flag]
                nul = op["nul"] and all(vals)
                at = M.TArray(mt, None if nul else len(vals))
                base = mt.base.name
                want, _ = model.encode(M.TArray(mt.base, None if nul else len(vals)), ("a", tuple(vals)))
            except (M.Invalid, KeyError, AttributeError) as e:
                raise core.Skip(repr(e)) from None
            T = E[None] if nul else E[len(vals)]
            native = [v if op["raw"] >> i & 1 else E(v) for i, v in enumerate(vals)]
            try:
                out = dump(T, native, "write" if op["how"] == "write" else "tdumps")
                o = T.read(simio.SimFile(want)) if op["how"] == "write" else T(want)
                if op["how"] == "dumps":
                    out2 = o.dumps()
                    ctx.check(out2 == want, "encode", lambda: f"{where}: instance dumped as {out2.hex()}, expected {want.hex()}\n{text}")
            except Exception as e:  # noqa: BLE001
                ctx.fail("raised", f"{where}: raised {e!r}\n{text}")
            ctx.check(out == want, "encode", lambda: f"{where}: {native!r} encoded as {out.hex()}, expected {want.hex()}\n{text}")
            got = [x.value for x in o]
            ctx.check(got == vals, "decode", lambda: f"{where}: {want.hex()} decoded as {got!r}, expected {vals!r}\n{text}")
            ctx.stat("probe:enum_array_raw_ints", op["raw"] > 0)
            compared += 2
            late += changed[c]
            ctx.log(k, "enums", op["n"], want.hex())
            ctx.state("enums", base, nul, bool(op["raw"]), ends[c])
        elif op["op"] == "scalar":
            name = op["n"]
            cs = css[c]
            T = cs.resolve(op["alias"])
            mt = model.builtin[name]
            vals = [plain_scalar(name, x) for x in op["vals"]]
            if op["arr"]:
                if op["nul"] and all(M.truthy(v) and v not in (("c", b"\0"), ("w", "\0")) for v in vals):
                    T, at = T[None], M.TArray(mt, None)
                else:
                    units = sum(1 + (isinstance(v, tuple) and v[0] == "w" and v[1] > "\uffff") for v in vals)
                    T, at = T[units], M.TArray(mt, units)
                kind = M.BUILTIN[name][0]
                pv = ("c", b"".join(v[1] for v in vals)) if kind == "char" else ("w", "".join(v[1] for v in vals)) if kind == "wchar" \
                    else ("a", tuple(vals))
                native = pv[1] if kind in ("char", "wchar") else [float(v[1]) if isinstance(v, tuple) else v for v in vals]
            else:
                at, pv = mt, vals[0]
                native = pv if isinstance(pv, int) else float(pv[1]) if pv[0] == "f" else pv[1]
            native = other_form(op.get("form"), M.BUILTIN[name][0], native, op["arr"], ctx)
            want, _ = model.encode(at, pv)
            if op["wf"]:
                s = simio.SimFile(b"", faults=[{"op": "write", "at": 0, "kind": "raise", "exc": "OSError"}])
                try:
                    T.write(s, native)
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    ctx.log(k, "write fault", type(e).__name__)
                ctx.stat("fault:write_raise", len(s.fired))
            try:
                out = dump(T, native, "tdumps" if op["how"] == "dumps" else op["how"])
                o = T(want) if op["how"] != "write" else T.read(simio.SimFile(want))
                if op["how"] == "dumps":
                    out2 = dump(T, o, "dumps") if hasattr(o, "dumps") else out
                    ctx.check(out2 == want, "encode", lambda: f"{where}: instance dumped as {out2.hex()}, expected {want.hex()}")
            except Exception as e:  # noqa: BLE001
                ctx.fail("raised", f"{where}: raised {e!r}")
            ctx.check(out == want, "encode", lambda: f"{where}: {pv!r} encoded as {out.hex()}, expected {want.hex()}")
            got = real.plain(o, T)
            ctx.check(got == pv, "decode", lambda: f"{where}: {want.hex()} decoded as {got!r}, expected {pv!r}")
            ctx.stat("probe:encode_boundary")
            ctx.stat("probe:decode_boundary")
            compared += 2
            late += changed[c]
            ctx.log(k, name, op["alias"], want.hex())
            ctx.state("scalar", op["alias"], op["arr"], op["nul"], ends[c])
            if M.BUILTIN[name][0] == "int" and not op["arr"]:
                # one beyond the range: never encoded
                _, size, signed, _ = M.BUILTIN[name]
                hi = 1 << (size * 8 - signed)
                for bad in (hi, (-hi if signed else 0) - 1):
                    try:
                        out = T.dumps(bad)
                    except Exception:  # noqa: BLE001
                        ctx.stat("probe:overflow_rejected")
                    else:
                        ctx.fail("encode-overflow", f"{where}: {bad} encoded as {out.hex()}")
        else:
            rng = random.Random(op["seed"])
            name = op["n"]
            T = css[c]._make_pointer(css[c].resolve(name))
            w = model.ptr_width.size
            body = bytearray(rng.randbytes(64))
            body[0:w] = op["addr"].to_bytes(w, model.bo())
            if M.BUILTIN[name][0] == "wchar":
                body[op["addr"]:op["addr"] + 2] = b"\x12\x34"
            p = T.read(simio.SimFile(body))
            ctx.check(int(p) == op["addr"], "decode", lambda: f"{where}: pointer decoded as {int(p)}")
            switch(c, op["e2"])
            model.endian = op["e2"]
            v, _ = model.read(model.builtin[name], M.Source(body), op["addr"])
            if "'nan'" in repr(v):
                continue
            got = real.plain(p.dereference(), css[c].resolve(name))
            ctx.check(got == v, "decode", lambda: f"{where}: dereferenced under {op['e2']} as {got!r}, expected {v!r}")
            ctx.stat("probe:deref_after_switch")
            compared += 1
            late += changed[c]
            ctx.log(k, "deref", name, repr(v))
    ctx.nontrivial = compared >= 6 and late > 0


def other_form(form, kind, v, arr, ctx):
    """The same value in another form the library accepts."""
    new = v
    if kind == "char" and isinstance(v, bytes):
        if form == "str":
            new = v.decode("latin-1")
        elif form == "int" and v:
            new = list(v) if arr else v[0]
        elif form == "tuple":
            new = bytearray(v)
    elif kind != "char" and isinstance(v, int) and form == "int" and v in (0, 1):
        new = bool(v)
    elif kind == "float" and isinstance(v, float) and form == "int" and v == v and abs(v) < 1e6 and v == int(v) and str(v)[0] != "-":
        new = int(v)
    ctx.stat("probe:other_form", new is not v)
    return new


def dump(T, o, how):
    if how == "write":
        s = simio.SimFile(b"")
        T.write(s, o)
        return bytes(s.data)
    if how == "dumps" and hasattr(o, "dumps"):
        return o.dumps()
    return T.dumps(o)


def kind_of(mt):
    return (type(mt).__name__, mt.size if mt.size is None or mt.size < 20 else 20, kind_of(mt.elem) if isinstance(mt, M.TArray) else None)


def has_union(mt):
    if isinstance(mt, M.TArray):
        return has_union(mt.elem)
    if isinstance(mt, M.TStruct):
        return mt.union or any(has_union(f.type) for f in mt.fields)
    return False
