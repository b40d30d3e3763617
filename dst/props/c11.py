"""C11: union members stay coherent views of one byte buffer over every history of assignments.

One run = one or two instances of a fixed-size union (or of a structure holding unions) and a history of assignments to
members (direct, through nested structures, through held references, through anonymous members), assignments that fail, writes
into failing sinks and truncated parses.  After every operation the dumped bytes and every member are compared with a bit-level
model of the buffer.
"""

from __future__ import annotations

import io
import random

from .. import core, gen, real, simio
from .. import model as M
from . import common

RUNS = {"quick": 26000, "thorough": 400000}
RULE = ("one run = one random definition whose value contains a union, 1-2 instances (parsed, default or constructed) and 4-25 "
        "operations; after every operation all instances' dumped bytes and all members are compared with a bit-level buffer model; "
        "non-trivial = at least 3 successful assignments of which one changed another member's bytes; distinct = event log digest")
STATE_MEASURE = "distinct (path shape of the assignment, leaf kind, access way, instance origin, reader mode, alignment mode)"
REAL = ["all of dissect.cstruct"]
STUB = ["file object (simio.SimFile) for parsing and writing"]
ASSUMPTIONS = ["bits that are padding in every member are unconstrained; padding bits of the assigned member may keep the old or take zero",
               "runs stop when a member would have to hold a NaN or undecodable UTF-16 (values the property does not constrain)",
               "list elements are replaced as whole arrays, not mutated in place (arrays are plain lists without a link to the union)"]
PROBES = ["nested_dumped", "nested_assignment", "held_reference", "anonymous_assignment", "bitfield_assignment", "negative_bits", "shorter_string", "whole_struct_assignment",
          "array_assignment", "two_instances", "union_in_struct_in_union", "size_checked", "constructed_from_member",
          "same_list_stored_back", "unaligned_union"]
FAULTS = ["failing_assignment", "write_raise", "truncated_parse"]
LISTS = ("ops",)
BYTES = ("data",)


def contains_union(t, model):
    if isinstance(t, M.TArray):
        return contains_union(t.elem, model)
    if isinstance(t, M.TStruct):
        return t.union or any(contains_union(f.type, model) for f in t.fields)
    return False


def leaves(st, path=(), inunion=False):
    """All assignable places: (path of field indexes, in a union)."""
    out = []
    for i, f in enumerate(st.fields):
        p = (*path, i)
        if f.name is not None:
            out.append((p, inunion or st.union))
        if isinstance(f.type, M.TStruct):
            out += leaves(f.type, p, inunion or st.union)
    return out


def generate(rng, tier):
    for _ in range(10):
        g, prog, m = common.program(rng, need=("union",), topunion=0.7, maxstruct=4, off=("leb", "nullarr", "exprarr", "eof", "selfref"),
                                    nocompile=0.1, explicit=0.1)
        if prog is None:
            continue
        st = m.types[prog["top"]]
        if st.size and contains_union(st, m) and st.size <= 300:
            break
    else:
        return None
    places = [list(p) for p, u in leaves(st) if u]
    if not places:
        places = [list(p) for p, _ in leaves(st)]
    if not places:
        return None
    inst = [{"from": rng.choice(["parse", "parse", "parse", "default", "ctor"]), "seed": rng.getrandbits(32)}
            for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.randrange(4, 26)):
        x = rng.random()
        op = {"i": rng.randrange(len(inst)), "p": rng.choice(places), "seed": rng.getrandbits(32)}
        if x < 0.57:
            op["op"] = "set"
            op["held"] = rng.random() < 0.35
            op["native"] = rng.random() < 0.4
        elif x < 0.72:
            op["op"] = "bad"
            op["held"] = rng.random() < 0.3
        elif x < 0.78:
            op["op"] = "sink"
            op["at"] = rng.randrange(0, 4)
        elif x < 0.92:
            op["op"] = "hold"
        elif x < 0.96:
            op["op"] = "cut"
        else:
            op["op"] = "reparse"
        ops.append(op)
    return {"prog": prog, "compiled": rng.random() < 0.5, "inst": inst, "ops": ops}


def resolve_path(st, path):
    """-> list of fields, absolute offset, [(offset, chosen member type) for every union on the path]"""
    fields, off, unions = [], 0, []
    t = st
    for i in path:
        if not isinstance(t, M.TStruct) or i >= len(t.fields):
            raise core.Skip("path")
        f = t.fields[i]
        fields.append(f)
        if t.union:
            unions.append((off, f.type))
        off += f.offset or 0
        t = f.type
    return fields, off, unions


def bits_of(model, f, off):
    """Absolute bit mask (as int over the whole little-endian bit string) of the data bits of field f at byte offset off."""
    if f.bits:
        sto = M.storage(f.type)
        lo = f.shift if model.bo() == "little" else sto.size * 8 - f.shift - f.bits
        b = (((1 << f.bits) - 1) << lo).to_bytes(sto.size, model.bo())
    else:
        b = model.mask(f.type)
    return int.from_bytes(b, "little") << (8 * off)


def native(v, T):
    """Plain Python value for a library value where that is a supported way of assigning."""
    from dissect.cstruct import types as ty

    if issubclass(T, (ty.Enum, ty.Flag, ty.Structure)):
        return v
    if isinstance(v, bytes):
        return bytes(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, list):
        return [native(x, T.type) for x in v]
    if isinstance(v, float):
        return float(v)
    if isinstance(v, int):
        return int(v)
    return v


def bad_value(rng, f):
    t = f.type
    if f.bits:
        b = 1 << f.bits
        return rng.choice([b, b + 5, -b - 1]) if not isinstance(t, M.TEnum) else "x"
    if isinstance(t, M.TEnum):
        return rng.choice([object(), "bad"])
    if isinstance(t, (M.TInt, M.TPtr)):
        t = t.width if isinstance(t, M.TPtr) else t
        hi = 1 << (t.size * 8 - t.signed)
        return rng.choice([hi, (-hi if t.signed else 0) - 1, hi << 70, "bad", [1]])
    if isinstance(t, M.TFloat):
        return rng.choice(["bad", [1.0]])
    if isinstance(t, M.TWchar):
        return "\ud800"
    if isinstance(t, M.TArray) and not isinstance(t.elem, (M.TChar, M.TWchar)) and isinstance(t.count, int):
        n = max(0, t.count)
        leaf = t.elem
        if isinstance(leaf, M.TInt):
            if n and rng.random() < 0.6:
                out = [0] * n
                out[rng.randrange(n)] = rng.choice([1 << (leaf.size * 8), "bad"])
                return out
            return [0] * rng.choice([n + 1, n + 2] + ([n - 1] if n else []))
    return None


def execute(plan, ctx):
    prog = plan["prog"]
    model = common.make_model(prog)
    st = model.types.get(prog["top"])
    if not isinstance(st, M.TStruct) or not st.size or not contains_union(st, model):
        raise core.Skip("no fixed-size union")
    try:
        mask = int.from_bytes(model.mask(st), "little")
    except TypeError:
        raise core.Skip("dynamic member") from None
    cs = common.try_build(prog, plan["compiled"])
    T = cs.resolve(prog["top"])
    text = gen.text(prog)
    n = st.size
    if st.union:
        want = max(f.type.size for f in st.fields)
        want = M.rnd(want, st.align) if prog["align"] else want
        ctx.check(T.size == want == len(T), "size", lambda: f"size {T.size}, expected {want}\n{text}")
        ctx.stat("probe:size_checked")

    def usable(b):
        """Every member decodable to a value the property constrains."""
        try:
            v, _ = model.read(st, M.Source(b), 0)
        except (M.Invalid, M.Short):
            return None
        return None if "'nan'" in repr(v) else v

    def bytes_for(t, rng, size):
        for _ in range(8):
            b = bytes(size) if rng.random() < 0.1 else rng.randbytes(size)
            try:
                v, _ = model.read(t, M.Source(b), 0)
            except (M.Invalid, M.Short):
                continue
            if "'nan'" not in repr(v):
                return b
        return bytes(size)

    objs, bufs, holds, origin = [], [], [], []
    for spec in plan["inst"]:
        rng = random.Random(spec["seed"])
        origin.append(spec["from"])
        named = [(i, f) for i, f in enumerate(st.fields) if f.name]
        if spec["from"] == "ctor" and st.union and named:
            i, f = rng.choice(named)
            b = bytes_for(f.type, rng, f.type.size)
            lt = T.__fields__[i].type
            mb = int.from_bytes(b, "little") & int.from_bytes(model.mask(f.type), "little")
            exp = mb.to_bytes(n, "little")
            if usable(exp) is None:
                return
            try:
                o = T(**{f.name: lt.read(b)})
            except Exception as e:  # noqa: BLE001
                ctx.fail("ctor", f"constructing from member {f.name} = {b.hex()} raised {e!r}\n{text}")
            ctx.stat("probe:constructed_from_member")
        elif spec["from"] == "default" or (spec["from"] == "ctor"):
            o = T()
            exp = bytes(n)
        else:
            exp = None
            for _ in range(6):
                b = rng.randbytes(n)
                if usable(b) is not None:
                    exp = b
                    break
            if exp is None:
                exp = bytes(n)
            # unions may be anywhere, only structures depend on an aligned position
            p0 = rng.randrange(0, 40) if st.union or not prog["align"] else rng.choice([0, 16, 32])
            ctx.stat("probe:unaligned_union", st.union and prog["align"] and p0 % st.align)
            s = simio.SimFile(b"\xaa" * p0 + exp + b"\xbb" * 20, p0)
            try:
                o = T.read(s)
            except Exception as e:  # noqa: BLE001
                ctx.fail("parse", f"parsing {exp.hex()} raised {e!r}\n{text}")
            if s.pos - p0 != n:
                ctx.fail("consumed", f"parsing consumed {s.pos - p0} bytes, size is {n}\n{text}")
        objs.append(o)
        bufs.append(exp)
        holds.append({})
    if len(objs) > 1:
        ctx.stat("probe:two_instances")

    def snapshot(k, allowed, fresh, what):
        """Compare instance k with the model. allowed: bits that may be old or zero; fresh: expected bytes."""
        o = objs[k]
        try:
            out = o.dumps()
        except Exception as e:  # noqa: BLE001
            ctx.fail("dumps", f"{what}: dumps raised {e!r}\n{text}")
        if len(out) != n:
            ctx.fail("dumps", f"{what}: dumps gave {len(out)} bytes, size is {n}\n{text}")
        x, e = int.from_bytes(out, "little"), int.from_bytes(fresh, "little")
        diff = (x ^ e) & mask
        if diff & ~allowed or x & diff:
            ctx.fail("bytes", f"{what}: dumped {out.hex()}, expected {fresh.hex()} (data bits {mask.to_bytes(n, 'little').hex()}, may be "
                     f"zeroed {(allowed & mask).to_bytes(n, 'little').hex()})\n{text}")
        v = usable(out)
        if v is None:
            return False
        got = real.plain(o, T)
        if got != v and origin[k] in ("default", "ctor"):
            got = char_defaults(got)
        if got != v:
            ctx.fail("members", f"{what}: members are {got!r}, but the dumped bytes {out.hex()} parse as {v!r}\n{text}")
        # the other ways of dumping, and dumping a nested structure on its own
        try:
            sink = io.BytesIO()
            num = o.write(sink)
            other = (bytes(o), T.dumps(o), sink.getvalue())
        except Exception as e:  # noqa: BLE001
            ctx.fail("dumps", f"{what}: dumping raised {e!r}\n{text}")
        if any(b != out for b in other) or (st.union and num != n):
            ctx.fail("dumps", f"{what}: dumps gives {out.hex()}, bytes(), the type's dumps and write give {[b.hex() for b in other]} ({num})\n{text}")
        nested(o, st, T, 0, out, what, "")
        bufs[k] = out
        return True

    def nested(o, mt, lt, off, out, what, path):
        for f, lf in zip(mt.fields, lt.__fields__):
            if not isinstance(f.type, M.TStruct) or f.bits:
                continue
            x, at, name = getattr(o, lf._name), off + (f.offset or 0), f"{path}{f.name}."
            try:
                b = bytes(x)
                item = o[lf._name]
                items = [(g._name, x[g._name], getattr(x, g._name)) for g in lf.type.__fields__]
            except Exception as e:  # noqa: BLE001
                ctx.fail("nested", f"{what}: dumping {name} or looking up its fields raised {e!r}\n{text}")
            m = int.from_bytes(model.mask(f.type), "little")
            want = out[at:at + f.type.size]
            if len(b) != f.type.size or (int.from_bytes(b, "little") ^ int.from_bytes(want, "little")) & m:
                ctx.fail("nested", f"{what}: {name} dumps {b.hex()}, the bytes there are {want.hex()}\n{text}")
            if item != x or any(p is not q and p != q for _, p, q in items) or repr(x) != repr(item):
                ctx.fail("nested", f"{what}: {name} looked up by item differs\n{text}")
            ctx.stat("probe:nested_dumped")
            nested(x, f.type, lf.type, at, out, what, name)

    for k in range(len(objs)):
        if not snapshot(k, 0, bufs[k], f"compiled={plan['compiled']} after {origin[k]}"):
            return
    assigned = spread = 0
    for j, op in enumerate(plan["ops"]):
        k = op["i"] % len(objs)
        rng = random.Random(op["seed"])
        fields, off, unions = resolve_path(st, op["p"])
        f = fields[-1]
        if f.name is None:
            raise core.Skip("anonymous leaf")
        names = [x.name for x in fields[:-1] if x.name is not None]
        lt = T
        for i in op["p"]:
            lf = lt.__fields__[i]
            lt = lf.type
        what = f"compiled={plan['compiled']} op {j} {op['op']} {'.'.join(names + [f.name])} on instance {k} ({origin[k]})"

        def container(held, k=k, names=names):
            o = objs[k]
            for depth, nm in enumerate(names):
                key = tuple(names[:depth + 1])
                if held and key in holds[k]:
                    o = holds[k][key]
                    ctx.stat("probe:held_reference")
                else:
                    o = getattr(o, nm)
            return o

        fresh, allowed = bufs[k], 0
        if op["op"] == "set":
            size = M.storage(f.type).size if f.bits else f.type.size
            b = bytes_for(f.type if not f.bits else M.storage(f.type), rng, size)
            if f.bits:
                x = rng.getrandbits(f.bits)
                val = lt(x) if isinstance(f.type, M.TEnum) else x
                if unions and op["native"] and isinstance(f.type, M.TInt) and f.type.signed and x >> (f.bits - 1):
                    val -= 1 << f.bits  # parsed again from the bytes of the union, as a positive number
                    ctx.stat("probe:negative_bits")
                sh = f.shift if model.bo() == "little" else size * 8 - f.shift - f.bits
                new = int.from_bytes((x << sh).to_bytes(size, model.bo()), "little") << (8 * off)
                ctx.stat("probe:bitfield_assignment")
            else:
                val = lt.read(b)
                if op["native"]:
                    val = native(val, lt)
                    if (unions and isinstance(f.type, M.TArray) and isinstance(f.type.elem, (M.TChar, M.TWchar)) and rng.random() < 0.3
                            and isinstance(val, (bytes, str)) and len(val) == f.type.count):
                        # a shorter string is padded
                        q = rng.randrange(0, len(val) + 1)
                        val = val[:q]
                        b = b[:q * f.type.elem.size].ljust(size, b"\0")
                        ctx.stat("probe:shorter_string")
                new = int.from_bytes(b, "little") << (8 * off)
            leaf = bits_of(model, f, off)
            for uo, mt in unions:
                reg = ((1 << (8 * mt.size)) - 1) << (8 * uo)
                allowed |= reg & ~(int.from_bytes(model.mask(mt), "little") << (8 * uo))
            old = int.from_bytes(bufs[k], "little")
            fresh = ((old & ~leaf) | (new & leaf)).to_bytes(n, "little")
            if usable(fresh) is None:
                continue
            try:
                holder = container(op["held"])
                if isinstance(val, list) and rng.random() < 0.4:
                    # the usual "modify the list and store it back" idiom: the very object the member already holds
                    cur = getattr(holder, f.name)
                    if rng.random() < 0.5:
                        cur[:] = val
                    else:
                        for q, y in enumerate(val):
                            cur[q] = y
                    val = cur
                    ctx.stat("probe:same_list_stored_back")
                setattr(holder, f.name, val)
            except Exception as e:  # noqa: BLE001
                ctx.fail("assignment", f"{what} = {val!r}: raised {e!r}\n{text}")
            what += f" = {val!r} over {bufs[k].hex()}"
            assigned += 1
            spread += fresh != bufs[k]
            ctx.stat("probe:nested_assignment", bool(names))
            ctx.stat("probe:anonymous_assignment", any(x.name is None for x in fields[:-1]))
            ctx.stat("probe:whole_struct_assignment", isinstance(f.type, M.TStruct))
            ctx.stat("probe:array_assignment", isinstance(f.type, M.TArray))
            ctx.stat("probe:union_in_struct_in_union", len(unions) > 1)
            ctx.state(tuple((x.name is None, type(x.type).__name__, x.type.union if isinstance(x.type, M.TStruct) else None) for x in fields),
                      bool(f.bits), op["held"], origin[k], plan["compiled"], prog["align"])
            ctx.log(j, "set", op["p"], fresh.hex())
        elif op["op"] == "bad":
            val = bad_value(rng, f)
            if val is None:
                continue
            try:
                setattr(container(op["held"]), f.name, val)
            except Exception as e:  # noqa: BLE001
                ctx.stat("fault:failing_assignment", bool(unions))
                ctx.log(j, "bad", op["p"], type(e).__name__)
            else:
                if unions:
                    ctx.stat("bad_value_accepted")
                    return  # C01 decides whether it may be accepted
                # plain structures keep any object until it is written: put a proper value back
                size = M.storage(f.type).size if f.bits else f.type.size
                setattr(container(False), f.name, getattr(T.read(bufs[k]) if not names else walk(T.read(bufs[k]), names), f.name))
            what += f" = {val!r} (rejected)"
        elif op["op"] == "sink":
            s = simio.SimFile(b"", faults=[{"op": "write", "at": op["at"], "kind": "raise", "exc": "OSError"}])
            try:
                T.write(s, objs[k])
            except (Exception, KeyboardInterrupt):  # noqa: BLE001
                pass
            ctx.stat("fault:write_raise", len(s.fired))
            ctx.log(j, "sink", len(s.fired))
        elif op["op"] == "hold":
            o = objs[k]
            for depth, nm in enumerate(names):
                o = getattr(o, nm)
                if not isinstance(o, list):
                    holds[k].setdefault(tuple(names[:depth + 1]), o)
            # a reference into a plain structure that is replaced as a whole goes stale by Python semantics: only union paths are held
            ctx.log(j, "hold", names)
        elif op["op"] == "cut":
            try:
                T.read(simio.SimFile(bufs[k][:rng.randrange(0, n)]))
            except (Exception, KeyboardInterrupt):  # noqa: BLE001
                ctx.stat("fault:truncated_parse")
        else:
            try:
                p0 = rng.randrange(0, 40) if st.union or not prog["align"] else rng.choice([0, 16, 32])
                s = simio.SimFile(b"\xaa" * p0 + bufs[k] + b"\xbb" * 20, p0)
                objs[k] = T.read(s)
            except Exception as e:  # noqa: BLE001
                ctx.fail("parse", f"{what}: parsing {bufs[k].hex()} raised {e!r}\n{text}")
            if s.pos - p0 != n:
                ctx.fail("consumed", f"{what}: parsing consumed {s.pos - p0} bytes, size is {n}\n{text}")
            holds[k] = {}
            origin[k] = "reparse"
        for q in range(len(objs)):
            if q == k:
                if not snapshot(q, allowed, fresh, what):
                    return
            elif not snapshot(q, 0, bufs[q], what + f" (observing instance {q})"):
                return
        if op["op"] == "set" and isinstance(f.type, M.TStruct):
            # references below a replaced plain structure are stale by Python semantics
            if not st.union:
                holds[k] = {kk: vv for kk, vv in holds[k].items() if len(kk) == 0}
    ctx.nontrivial = assigned >= 3 and spread > 0


def char_defaults(v):
    """A char bit-field that was never assigned holds the zero character instead of the integer 0."""
    if v == ("b!", "b'\\x00'"):
        return 0
    return tuple(char_defaults(x) for x in v) if isinstance(v, tuple) else v


def walk(o, names):
    for nm in names:
        o = getattr(o, nm)
    return o
