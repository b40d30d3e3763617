"""C16: pointers - width from configuration, dereference reads the target in place.

One run = one random definition with pointers, one or two simulated memory images (streams) in which structures are placed and
their pointers patched to chosen addresses (targets generated in place, shared and cyclic targets, null, image edges, garbage), and
a history of parses, dereferences (repeated, through arithmetic, through nested pointers), stream faults during a dereference,
truncations, stream moves, image changes and byte-order changes.  The reference never dereferences: it parses the target type at
the address on a stream of its own with an independently (interpreted) loaded copy of the definition.
"""

from __future__ import annotations

import copy
import operator
import random

from .. import core, gen, real, simio
from .. import model as M
from . import common

RUNS = {"quick": 36000, "thorough": 400000}
RULE = ("one run = one random definition x 1-2 memory images x pointers patched to valid, shared, cyclic, null, edge and wild addresses x "
        "5-30 operations; every dereference is compared with parsing the target type at that address on an independent stream, and the "
        "stream position is compared before and after; non-trivial = at least 3 non-null dereferences compared; distinct = event log digest")
STATE_MEASURE = "distinct (target kind, pointer width, endianness, address class, operation, origin of the pointer, reader mode, alignment mode)"
REAL = ["all of dissect.cstruct including generated readers"]
STUB = ["file object (simio.SimFile)"]
ASSUMPTIONS = ["aligned structures are only dereferenced at aligned addresses",
               "pointer types are unsigned (as the property says: the unsigned integer stored there)",
               "values of void targets are not constrained, only the null error and the stream position"]
PROBES = ["deref_ok", "deref_null", "deref_eof", "deref_repeat", "deref_after_failed", "deref_after_change", "char_target", "struct_target",
          "pointer_target", "enum_target", "array_target", "union_target", "arith", "arith_deref", "no_stream", "two_streams", "cyclic",
          "pointer_in_array", "pointer_in_union", "pointer_in_nested", "parse_after_deref", "written_address", "endian_switch",
          "configured_later", "attribute_forward", "typedef_pointer", "length_from_fields", "standalone", "pointers_to_eof"]
FAULTS = ["read_raise", "seek_raise", "tell_raise", "read_short", "device_error", "truncated_image"]
LISTS = ("ops",)

BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "//": operator.floordiv, "%": operator.mod, "<<": operator.lshift,
       ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "**": operator.pow}


def has_void(t):
    return isinstance(t, M.TVoid)


def aligned_only(model, t):
    """Does parsing t depend on the absolute alignment of its address?"""
    while isinstance(t, M.TArray):
        t = t.elem
    return model.aligned and isinstance(t, M.TStruct)


def generate(rng, tier):
    g, prog, m = common.program(rng, need=("ptr",) if rng.random() < 0.5 else ("ptr", "nested", "selfref"), maxstruct=4, density=0.45,
                                topunion=0.1, off=("eof",), nocompile=0.15, explicit=0.08,
                                pointer=rng.choice([None, None, "uint8", "uint16", "uint32", "uint64", "unsigned int", "QWORD", "uint24",
                                                    "uint48", "uint128", "USHORT", "u4"]))
    if prog is None:
        return None
    names = [s for s, _ in g.structs]
    tds = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        # typedefs of pointers
        n = g.fresh("pt")
        t = ["ptr", ["n", rng.choice(["char", "uint8", "uint16", "int32", "wchar", "uint64", "uleb128"] + tds)]]
        prog["decls"].insert(len(tds), {"k": "typedef", "t": t, "names": [n]})
        tds.append(n)
    # pointer-typed fields everywhere
    for d in prog["decls"]:
        if d["k"] in ("struct", "union") and not any(f["t"][0] == "ptr" for f in d["fields"]) and rng.random() < 0.8:
            own = [s for s in names if s != d["name"]]
            own = own[:names.index(d["name"])] if d["name"] in names else own
            tgt = ["n", rng.choice(own)] if own and rng.random() < 0.4 else g.scalar()
            if tgt[0] == "n" and tgt[1] in g.typedefs + g.enums and d["name"] != prog["top"]:
                tgt = ["n", rng.choice(["char", "uint8", "uint16", "uint32", "int64", "wchar", "double", "uleb128"])]
            used = {f["n"] for f in d["fields"]}
            nm = next(x for x in ("ptr", "pp", "tgt") if x not in used)
            t = ["ptr", tgt]
            if rng.random() < 0.3:
                t = ["ptr", t]
            if tds and rng.random() < 0.3:
                t = ["n", rng.choice(tds)]
            if rng.random() < 0.15:
                t = ["arr", t, rng.randrange(1, 4)]
            d["fields"].append({"n": nm, "t": t})
    try:
        m = M.Model(prog)
    except (M.Invalid, KeyError):
        return None
    if any(common.endless(t) for t in m.types.values()):
        return None
    w = m.ptr_width.size
    images = []
    for _ in range(rng.choice([1, 1, 2])):
        L = rng.randrange(40, 256) if w == 1 else rng.randrange(60, 500)
        if w > 1 and rng.random() < 0.1:
            L = rng.randrange(700, 2500)
        img = bytearray(rng.randbytes(L))
        for i in range(L):
            if rng.random() < 0.12:
                img[i] = 0
        objs = []
        used = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = rng.choice([prog["top"], prog["top"], rng.choice(names)])
            off = place(m, m.types[s], img, used, rng, 0)
            if off is not None:
                objs.append([s, off])
        if not objs:
            return None
        images.append({"data": bytes(img).hex(), "objs": objs})
    ops = []
    for _ in range(rng.randrange(5, 31)):
        x = rng.random()
        op = {"h": rng.randrange(1000)}
        if x < 0.40:
            op["op"] = "deref"
            op["how"] = rng.choice(["deref", "deref", "deref", "str", "attr"])
        elif x < 0.50:
            op["op"] = "fault"
            op["f"] = rng.choice([{"op": "read", "kind": "raise"}, {"op": "read", "kind": "raise"}, {"op": "seek", "kind": "raise"}, {"op": "tell", "kind": "raise"},
                                  {"op": "read", "kind": "short", "keep": rng.randrange(0, 3)}])
            op["f"] = {**op["f"], "exc": rng.choice(["OSError", "Abort", "EOFError", "MemoryError", "ValueError"])}
            op["n"] = rng.choice([0, 0, 0, 1, 1, 2, 3])
        elif x < 0.56:
            op["op"] = "bad"
            op["n"] = rng.randrange(0, 12)
        elif x < 0.61:
            op["op"] = "trunc"
            op["n"] = rng.randrange(0, 12)
        elif x < 0.72:
            op["op"] = "arith"
            op["f"] = rng.choice(["+", "+", "+", "-", "-", "*", "//", "%", "<<", ">>", "&", "|", "^", "**"])
            op["n"] = rng.choice([0, 1, 2, 3, 4, 8, 16, rng.randrange(0, 64), rng.randrange(0, 300)])
            if op["f"] in ("<<", ">>", "**"):
                op["n"] %= 4
            op["d"] = rng.random() < 0.7
        elif x < 0.78:
            op["op"] = "parse"
            op["o"] = rng.randrange(10)
        elif x < 0.81:
            op.update(op="direct", fill=rng.choice(["null", "address", "address", "random", "random", "obj"]), at=rng.randrange(2000),
                      how=rng.choice(["read", "call", "array", "array", "named", "named", "bytes", "eof"]), n=rng.randrange(0, 4))
        elif x < 0.84:
            op["op"] = "move"
            op["n"] = rng.randrange(0, 600)
        elif x < 0.87:
            op["op"] = "change"
            op["n"] = rng.randrange(0, 12)
            op["v"] = rng.choice([0, 255, rng.randrange(256)])
        elif x < 0.90:
            op["op"] = "dump"
        elif x < 0.94:
            op["op"] = "assign"
            op["n"] = rng.randrange(0, 9)
        elif x < 0.97:
            op["op"] = "nostream"
            op["n"] = rng.choice([0, 1, 8])
        else:
            op["op"] = "endian"
            op["v"] = rng.choice(["<", ">", "!"])
        ops.append(op)
    return {"prog": prog, "compiled": rng.random() < 0.6, "images": images, "ops": ops, "late": rng.random() < 0.3}


def place(m, mt, img, used, rng, depth, fields=None):
    """Put a generated value of type mt at a free place of the image, pointing its pointers somewhere. Returns the address."""
    step = 16 if aligned_only(m, mt) else 1
    for _ in range(6):
        off = rng.randrange(0, max(1, len(img) - 4)) // step * step
        if isinstance(mt, M.TChar):
            n = rng.choice([0, 1, 3, 9, 9 if len(img) < 600 else rng.randrange(60, 600)])
            data = bytes(rng.randrange(1, 256) for _ in range(n)) + b"\0"
        elif isinstance(mt, M.TVoid):
            return off
        else:
            d = gen.gen_data(m, mt, rng, off, tries=3, limit=min(200 if len(img) < 600 else 800, len(img)), ctx=fields)
            if d is None:
                continue
            data = d[0]
        if off + len(data) > len(img) or any(off < b and a < off + len(data) for a, b in used):
            continue
        used.append((off, off + len(data)))
        img[off:off + len(data)] = data
        src = M.Source(bytes(img))
        if isinstance(mt, M.TChar):
            return off
        try:
            m.read(mt, src, off, fields)
        except (M.Invalid, M.Short):
            return off
        w = m.ptr_width.size
        for pos, pt, _ in src.ptrs:
            x = rng.random()
            top = (1 << (8 * w)) - 1
            astep = 16 if aligned_only(m, pt.target) else 1
            if x < 0.12:
                a = 0
            elif x < 0.62 and depth < 4:
                a = place(m, pt.target, img, used, rng, depth + 1, src.ptrctx[pos])
                if a is None:
                    a = rng.randrange(len(img))
            elif x < 0.75:
                a = rng.choice(used)[0]  # shared and cyclic structures, pointers to oneself
            elif x < 0.9:
                a = rng.randrange(len(img))
            elif x < 0.96:
                a = max(0, len(img) + rng.randrange(-6, 3))
            else:
                a = rng.choice([top, top // 2 + 1, rng.getrandbits(8 * w)])
            img[pos:pos + w] = min(a // astep * astep, top).to_bytes(w, m.bo())
        return off
    return None


class Handle:
    """A pointer object of the library together with what the reference knows about it."""

    def __init__(self, p, rtype, addr, stream, origin, fields):
        self.p, self.rtype, self.addr, self.stream, self.origin = p, rtype, addr, stream, origin
        self.fields = fields  # of the structure the pointer is part of: lengths of its target may depend on them
        self.value = None  # plain value of the first successful dereference
        self.failed = False


def pointers(v, t, rv, rt, out, where=(), fields=None):
    """Parallel walk of a value and its reference: every pointer inside, as (pointer, reference pointer, where, fields around it)."""
    from dissect.cstruct import types as ty

    if issubclass(t, ty.Pointer):
        out.append((v, rv, where, {} if fields is None else fields))
    elif issubclass(t, ty.Structure):
        kind = "u" if issubclass(t, ty.Union) else "s"
        fields = {}
        for f, rf in zip(t.__fields__, rt.__fields__):
            pointers(getattr(v, f._name), f.type, getattr(rv, rf._name), rf.type, out, (*where, kind), fields)
            M.Model._ctx(fields, f, real.plain(getattr(rv, rf._name), rf.type, f.bits))
    elif issubclass(t, ty.BaseArray) and isinstance(v, list):
        for x, rx in zip(v, rv):
            pointers(x, t.type, rx, rt.type, out, (*where, "a"), fields)


def kind_of(T):
    from dissect.cstruct import types as ty

    for k, c in (("union", ty.Union), ("struct", ty.Structure), ("pointer", ty.Pointer), ("enum", (ty.Enum, ty.Flag)),
                 ("array", ty.BaseArray), ("char", ty.Char), ("void", ty.Void)):
        if issubclass(T, c):
            return k
    return T.__name__


def execute(plan, ctx):
    from dissect.cstruct import cstruct
    from dissect.cstruct import types as ty
    from dissect.cstruct.exceptions import NullPointerDereference
    from dissect.cstruct.expression import Expression

    prog = plan["prog"]
    model = common.make_model(prog)
    text = gen.text(prog)
    w = model.ptr_width.size
    if plan["late"]:
        # configured through the attribute instead of the constructor
        cs = cstruct(endian=prog["endian"])
        cs.pointer = cs.resolve(prog["pointer"])
        ctx.stat("probe:configured_later")
        try:
            real.load(cs, prog["decls"], plan["compiled"], bool(prog["align"]))
        except Exception as e:  # noqa: BLE001
            raise core.Skip(repr(e)) from None
    else:
        cs = common.try_build(prog, plan["compiled"])
    ref = common.try_build(prog, False)
    limit = 6000
    streams = []
    for im in plan["images"]:
        streams.append(simio.SimFile(bytes.fromhex(im["data"]), limit=1 << 40))
    if len(streams) > 1:
        ctx.stat("probe:two_streams")
    handles, objs = [], []
    ctx.stat("probe:typedef_pointer", any(d["k"] == "typedef" and d["t"][0] == "ptr" for d in prog["decls"]))
    what = ""
    endian = [prog["endian"]]

    def fail(cls, msg):
        ctx.fail(cls, f"{msg}\n{what} compiled={plan['compiled']} pointer={prog['pointer']} endian={endian[0]} align={prog['align']}\n{text}")

    def bo():
        return "little" if endian[0] == "<" else "big"

    def add(v, t, rv, rt, si, origin, fields=None):
        out = []
        pointers(v, t, rv, rt, out, (), fields)
        for p, rp, where, around in out:
            if type(p) is int or not isinstance(p, ty.Pointer):
                fail("type", f"the value of a pointer is {p!r} of type {type(p)}")
            if int(p) != int(rp):
                fail("value", f"pointer value {int(p):#x}, expected {int(rp):#x}")
            if len(handles) < 40 and not any(h.p is p for h in handles):
                handles.append(Handle(p, type(rp).type, int(rp), si, origin + "".join(where), around))
                ctx.stat("probe:pointer_in_array", "a" in where)
                ctx.stat("probe:pointer_in_union", "u" in where)
                ctx.stat("probe:pointer_in_nested", len(where) > 1)

    def parse(si, k):
        nonlocal what
        name, off = plan["images"][si]["objs"][k]
        if name not in model.types or off > len(streams[si].data):
            raise core.Skip("object")
        mt = model.types[name]
        what = f"parse {name} at {off} of stream {si}"
        src = M.Source(bytes(streams[si].data))
        model.endian = endian[0]
        try:
            want, end = model.read(mt, src, off)
        except (M.Invalid, M.Short):
            return
        T, R = cs.resolve(name), ref.resolve(name)
        s = streams[si]
        s.pos = off
        rs = simio.SimFile(bytes(s.data), off)
        try:
            ro = R.read(rs)
        except Exception as e:  # noqa: BLE001
            raise core.Skip(repr(e)) from None
        try:
            o = T.read(s)
        except Exception as e:  # noqa: BLE001
            fail("parse", f"parsing {name} at {off} raised {e!r}")
        if s.pos != end:
            fail("consumed", f"parsing {name} at {off} ended at {s.pos}, expected {end} (pointer width {w})")
        got, exp = ptr_values(real.plain(o, T)), ptr_values(want)
        if got != exp:
            fail("value", f"pointer values of {name} at {off} are {got}, expected {exp}")
        # sizes of pointer fields
        if isinstance(mt, M.TStruct):
            for f, mf in zip(T.__fields__, mt.fields):
                if isinstance(mf.type, M.TPtr):
                    if f.type.size != w or len(f.type) != w or f.alignment != mf.type.align:
                        fail("width", f"pointer {f.name} has size {f.type.size} and alignment {f.alignment}, configured width {w}")
            if T.size != mt.size:
                fail("width", f"{name} has size {T.size}, expected {mt.size} with {w} byte pointers")
            objs.append((o, T, si, off, end, src.ptrs, k))
        add(o, T, ro, R, si, "P")
        ctx.log("parse", si, name, off, repr(exp))

    for si, im in enumerate(plan["images"]):
        for k in range(len(im["objs"])):
            parse(si, k)
    if not handles:
        raise core.Skip("no pointers")

    def reference(h):
        """('value', plain, value, type) | ('raised', exception) | None (unconstrained) of parsing the target at the address."""
        data = bytes(streams[h.stream].data)
        R = h.rtype
        rs = simio.SimFile(data, limit=limit)
        if h.addr < 0:
            return "any", None
        rs.pos = h.addr
        if issubclass(R, ty.Void):
            return "any", None
        if aligned_target(R) and h.addr % 16:
            return "any", None
        if issubclass(R, ty.Char):
            end = data.find(b"\0", h.addr)
            if h.addr >= len(data) or end < 0:
                return "raised", EOFError()
            return "value", ("c", data[h.addr:end]), None, None
        try:
            v = R._read(rs, dict(h.fields)) if issubclass(R, (ty.BaseArray, ty.Pointer)) else R.read(rs)
        except simio.StepLimit:
            return "any", None
        except Exception as e:  # noqa: BLE001
            return "raised", e
        return "value", real.plain(v, R), v, R

    def aligned_target(R):
        while issubclass(R, ty.BaseArray):
            R = R.type
        return model.aligned and issubclass(R, ty.Structure)

    def same_mode(h, e):
        """A generated reader may refuse padding cut off at the end of the data, or find another reason to refuse, than the
        interpreted reference: then the generated reader itself is the reference for the error."""
        if not plan["compiled"]:
            return False
        try:
            type(h.p).type._read(simio.SimFile(bytes(streams[h.stream].data), h.addr), dict(h.fields))
        except Exception as x:  # noqa: BLE001
            ctx.stat("generated_reader_error", type(x) is type(e))
            return type(x) is type(e)
        return False

    def plain_of(h, v):
        if issubclass(h.rtype, ty.Char):
            return ("c", bytes(v)) if isinstance(v, bytes) else ("c!", repr(v))
        return real.plain(v, type(h.p).type)

    compared = 0

    def classify(h):
        n = len(streams[h.stream].data)
        return "null" if h.addr == 0 else "neg" if h.addr < 0 else "in" if h.addr < n - 8 else "edge" if h.addr <= n else "out"

    def deref(h, how="deref", expect=None):
        """Dereference once on a healthy stream and compare."""
        nonlocal compared
        s = streams[h.stream]
        pos = s.pos
        exp = reference(h) if expect is None else expect
        first = h.value is None
        s.limit = s.steps + limit
        try:
            if how == "str" and not issubclass(h.rtype, ty.Pointer):
                v = h.p.dereference()
                txt = str(h.p)
                if h.addr and txt != str(v):
                    fail("str", f"str() of a pointer to {h.addr} gives {txt!r}, its target is {v!r}")
            elif how == "attr" and issubclass(h.rtype, ty.Structure) and [f for f in h.rtype.__fields__ if f.name]:
                f = [f for f in h.rtype.__fields__ if f.name][-1]
                if hasattr(type(h.p), f.name):
                    v = h.p.dereference()
                else:
                    x = getattr(h.p, f.name)
                    v = h.p.dereference()
                    if real.plain(x, f.type, f.bits) != real.plain(getattr(v, f.name), f.type, f.bits):
                        fail("attr", f"attribute {f.name} through a pointer gives {x!r}, its target has {getattr(v, f.name)!r}")
                    ctx.stat("probe:attribute_forward")
            else:
                v = h.p.dereference()
        except simio.StepLimit:
            s.limit = 1 << 40
            if exp[0] == "any":
                s.pos = pos
                return None
            raise
        except core.Violation:
            raise
        except Exception as e:  # noqa: BLE001
            s.limit = 1 << 40
            if s.pos != pos:
                fail("moved", f"failing dereference of {h.addr} moved the stream from {pos} to {s.pos} ({e!r})")
            if h.addr == 0:
                if not isinstance(e, NullPointerDereference):
                    fail("null", f"dereferencing null raised {e!r}")
                ctx.stat("probe:deref_null")
                return "null"
            if not first:
                fail("stable", f"dereferencing {h.addr} again raised {e!r}, the first time it gave {h.value!r}")
            if isinstance(e, NullPointerDereference):
                fail("null", f"dereferencing {h.addr} raised the null error")
            if exp[0] == "value" and not same_mode(h, e):
                fail("target", f"dereferencing {h.addr} ({h.rtype.__name__}) raised {e!r}, parsing the target there gives {exp[1]!r}")
            if exp[0] == "raised" and isinstance(exp[1], EOFError) != isinstance(e, EOFError) and not same_mode(h, e):
                fail("target", f"dereferencing {h.addr} raised {e!r}, parsing the target there raises {exp[1]!r}")
            ctx.stat("probe:deref_eof", exp[0] == "raised")
            h.failed = True
            return "raised"
        s.limit = 1 << 40
        if s.pos != pos:
            fail("moved", f"dereferencing {h.addr} ({h.rtype.__name__}) moved the stream from {pos} to {s.pos}")
        if h.addr == 0:
            fail("null", f"dereferencing null gave {v!r}")
        if issubclass(h.rtype, ty.Void):
            return "void"
        got = plain_of(h, v)
        if not first:
            ctx.stat("probe:deref_repeat")
            if got != h.value:
                fail("stable", f"dereferencing {h.addr} again gave {got!r}, the first time it gave {h.value!r}")
            return "again"
        if exp[0] == "raised":
            fail("target", f"dereferencing {h.addr} ({h.rtype.__name__}) gave {got!r}, parsing the target there raises {exp[1]!r}")
        h.value = got
        if exp[0] == "any":
            return "any"
        if got != exp[1]:
            fail("target", f"dereferencing {h.addr} ({h.rtype.__name__}) gave {got!r}, parsing the target there gives {exp[1]!r}")
        compared += 1
        ctx.stat("probe:deref_ok")
        k = kind_of(h.rtype)
        ctx.stat(f"probe:{k}_target", f"{k}_target" in PROBES)
        ctx.stat("probe:deref_after_failed", h.failed)
        ctx.state(k, w, endian[0], classify(h), how, h.origin[:4], plan["compiled"], prog["align"])
        if exp[2] is not None:
            if any(q.addr == h.addr and q is not h and q.rtype is h.rtype for q in handles):
                ctx.stat("probe:cyclic")
            ctx.stat("probe:length_from_fields", issubclass(h.rtype, ty.BaseArray) and h.rtype.dynamic and not h.rtype.null_terminated)
            add(v, type(h.p).type, exp[2], exp[3], h.stream, "D", h.fields)
        return "ok"

    for j, op in enumerate(plan["ops"]):
        h = handles[op["h"] % len(handles)]
        s = streams[h.stream]
        what = f"op {j} {op} on pointer {h.addr:#x} ({h.rtype.__name__}* from {h.origin})"
        if op["op"] == "deref":
            ctx.log(j, "deref", h.addr, deref(h, op["how"]), repr(h.value))
        elif op["op"] in ("fault", "bad", "trunc"):
            pos = s.pos
            exp = reference(h)
            saved = bytes(s.data)
            s.fired = []
            if op["op"] == "fault":
                f = dict(op["f"])
                f["at"] = s.counts[f["op"]] + op["n"]
                s.faults = {(f["op"], f["at"]): f}
            elif op["op"] == "bad":
                s.bad = (h.addr + op["n"], "OSError")
            else:
                del s.data[max(0, h.addr) + op["n"]:]
                exp = reference(h)
            s.limit = s.steps + limit
            cached = h.value is not None
            err = v = None
            try:
                v = h.p.dereference()
            except simio.StepLimit:
                if exp[0] != "any":
                    raise
                s.pos = pos
            except Exception as e:  # noqa: BLE001
                err = e
            s.limit = 1 << 40
            s.faults = {}
            s.bad = None
            restored = op["op"] != "fault" or not any(x["op"] in ("seek", "tell") for x in s.fired)
            if s.pos != pos and restored:
                fail("moved", f"a dereference that failed with {err!r} moved the stream from {pos} to {s.pos}")
            s.pos = pos
            if h.addr == 0:
                if not isinstance(err, NullPointerDereference) and not s.fired:
                    fail("null", f"dereferencing null gave {err!r} / {v!r}")
            elif isinstance(err, NullPointerDereference):
                fail("null", f"dereferencing {h.addr} raised the null error")
            elif cached and not issubclass(h.rtype, ty.Void):
                if not s.fired and (err is not None or plain_of(h, v) != h.value):
                    fail("stable", f"dereferencing again gave {err!r} / {v!r}, the first time {h.value!r}")
            elif err is None and not issubclass(h.rtype, ty.Void):
                got = plain_of(h, v)
                if any(x["kind"] == "short" or x["kind"] == "none" for x in s.fired):
                    # the library may read the rest or report the short read; a value must be the right one
                    pass
                if exp[0] == "value" and got != exp[1]:
                    fail("target", f"dereferencing with {s.fired} gave {got!r}, parsing the target there gives {exp[1]!r}")
                if exp[0] == "raised":
                    fail("target", f"dereferencing gave {got!r}, parsing the target there raises {exp[1]!r}")
                if exp[0] != "any" and any(x["kind"] in ("raise", "bad") and x.get("op") != "tell" for x in s.fired):
                    fail("swallowed", f"the stream failed ({s.fired}) but the dereference gave {got!r}")
                h.value = got
            elif err is not None:
                if exp[0] == "value" and not s.fired and not same_mode(h, err):
                    fail("target", f"dereferencing {h.addr} raised {err!r}, parsing the target there gives {exp[1]!r}")
                h.failed = True
            for x in s.fired:
                ctx.stat("fault:device_error" if x["kind"] == "bad" else f"fault:{x['op']}_{x['kind']}")
            ctx.log(j, op["op"], h.addr, type(err).__name__, len(s.fired))
            if op["op"] == "trunc":
                ctx.stat("fault:truncated_image")
                s.data[:] = saved
            s.fired = []
            # the device works again
            if op["h"] % 3:
                deref(h)
        elif op["op"] == "arith":
            a = h.addr
            if op["f"] in ("//", "%") and op["n"] == 0:
                continue
            want = BIN[op["f"]](a, op["n"])
            if not isinstance(want, int) or abs(want) >= 1 << 200:
                continue
            q = BIN[op["f"]](h.p, op["n"])
            if type(q) is not type(h.p):
                fail("arith", f"{a} {op['f']} {op['n']} gives a {type(q)}, expected {type(h.p)}")
            if int(q) != want:
                fail("arith", f"{a} {op['f']} {op['n']} gives {int(q)}, expected {want}")
            if int(h.p) != a:
                fail("arith", f"arithmetic changed the pointer from {a} to {int(h.p)}")
            ctx.stat("probe:arith")
            nh = Handle(q, h.rtype, want, h.stream, "A" + h.origin[:3], h.fields)
            if 0 <= want < 1 << (8 * w):
                check_bytes(q, want, w, bo(), fail)
            r = None
            if op["d"] and abs(want) < 1 << 63:
                r = deref(nh)
                ctx.stat("probe:arith_deref", r == "ok")
            if len(handles) < 40 and abs(want) < 1 << 63:
                handles.append(nh)
            ctx.log(j, "arith", a, op["f"], op["n"], want, r)
        elif op["op"] == "parse":
            si = op["h"] % len(streams)
            k = op["o"] % len(plan["images"][si]["objs"])
            parse(si, k)
            ctx.stat("probe:parse_after_deref", compared > 0)
        elif op["op"] == "direct":
            # a pointer that is no field of a structure, read by itself
            P, rtype = type(h.p), h.rtype
            tds = [x for x in prog["decls"] if x["k"] == "typedef" and x["t"][0] == "ptr"]
            if op["how"] == "named" and tds:
                nm = tds[op["n"] % len(tds)]["names"][0]
                P, rtype = cs.resolve(nm), ref.resolve(nm).type
            at = op["at"] % (len(s.data) - w + 1) if len(s.data) >= w else None
            if at is None:
                continue
            n = op["n"] + 1 if op["how"] in ("array", "eof") else 1
            addrs = []
            for i in range(n):
                a = at + i * w
                if a + w > len(s.data):
                    n = i
                    break
                v = None
                if op["fill"] == "null" or (i and op["fill"] == "address" and op["n"] % 2):
                    v = 0
                elif op["fill"] == "address" and 0 <= h.addr < 1 << (8 * w):
                    v = h.addr
                elif op["fill"] == "obj":
                    v = min(plan["images"][h.stream]["objs"][op["n"] % len(plan["images"][h.stream]["objs"])][1], (1 << (8 * w)) - 1)
                if v is not None:
                    s.data[a:a + w] = v.to_bytes(w, bo())
                addrs.append(int.from_bytes(s.data[a:a + w], bo()))
            s.pos = at
            what += f" read as {P.__name__} at {at}"
            try:
                if op["how"] == "array":
                    got = P[n].read(s)
                elif op["how"] == "eof":
                    got = P[Expression(cs, "EOF")].read(bytes(s.data[at:at + n * w]))
                    s.pos = at + n * w
                elif op["how"] == "bytes":
                    got = [P(bytes(s.data[at:at + w]))]
                    s.pos = at + w
                elif op["how"] == "named" and tds:
                    got = [cs.read(nm, s) if op["at"] % 2 else getattr(cs, nm)(s)]
                else:
                    got = [P.read(s) if op["how"] == "read" else P(s)]
            except Exception as e:  # noqa: BLE001
                fail("parse", f"reading {n} pointers raised {e!r}")
            if [int(q) for q in got] != addrs or any(type(q) is not P for q in got):
                fail("value", f"reading {n} pointers gives {got!r} of types {[type(q) for q in got]}, expected {addrs}")
            if s.pos != at + n * w:
                fail("consumed", f"reading {n} pointers of width {w} at {at} ended at {s.pos}")
            if op["how"] == "eof":
                ctx.stat("probe:pointers_to_eof")
            elif op["how"] == "bytes":
                # its stream is the bytes object
                if addrs[0] == 0:
                    try:
                        v = got[0].dereference()
                    except NullPointerDereference:
                        ctx.stat("probe:deref_null")
                    except Exception as e:  # noqa: BLE001
                        fail("null", f"dereferencing null raised {e!r}")
                    else:
                        fail("null", f"dereferencing null gave {v!r}")
            else:
                for q, a in zip(got, addrs):
                    nh = Handle(q, rtype, a, h.stream, "S", {})
                    r = deref(nh, "deref")
                    ctx.stat("probe:standalone", r == "ok")
                    ctx.log(j, "direct", a, r)
                    if len(handles) < 40:
                        handles.append(nh)
        elif op["op"] == "move":
            s.pos = op["n"]
        elif op["op"] == "change":
            at = h.addr + op["n"]
            if 0 <= at < len(s.data):
                s.data[at] = op["v"]
                if h.value is not None:
                    # stable: the target was already read
                    deref(h)
                    ctx.stat("probe:deref_after_change")
            ctx.log(j, "change", at)
        elif op["op"] == "dump":
            if 0 <= h.addr < 1 << (8 * w):
                check_bytes(h.p, h.addr, w, bo(), fail)
            if objs:
                o, T, si, off, end, ptrs, k = objs[op["h"] % len(objs)]
                if not (T.dynamic and issubclass(T, ty.Union)) and not o.__dict__.get("__assigned__"):
                    try:
                        out = o.dumps()
                    except Exception as e:  # noqa: BLE001
                        out = None
                        if not may_refuse(real.plain(o, T)):
                            fail("dumps", f"dumps of {T.__name__} at {off} raised {e!r}")
                    if out is not None and "leb128" in text:
                        # the input may encode a number with more bytes than necessary, which moves what follows
                        model.endian = endian[0]
                        src = M.Source(out)
                        try:
                            model.read(model.types[plan["images"][si]["objs"][k][0]], src, 0)
                        except (M.Invalid, M.Short):
                            pass
                        if [v for _, _, v in src.ptrs] != [v for _, _, v in ptrs]:
                            fail("dumps", f"dumps of {T.__name__} at {off} has pointers {src.ptrs}, expected {ptrs}")
                    elif out is not None and len(out) == end - off:
                        for pos, _, v in ptrs:
                            b = out[pos - off:pos - off + w]
                            if b != v.to_bytes(w, bo()):
                                fail("dumps", f"dumps of {T.__name__} at {off} has {b.hex()} for the pointer at +{pos - off}, expected "
                                     f"{v.to_bytes(w, bo()).hex()}")
                            ctx.stat("probe:written_address")
            ctx.log(j, "dump")
        elif op["op"] == "assign":
            if not objs:
                continue
            o, T, si, off, end, ptrs, k = objs.pop(op["h"] % len(objs))
            if T.dynamic or issubclass(T, ty.Union):
                continue
            for f in T.__fields__:
                if issubclass(f.type, ty.Pointer) and f.name and not hasattr(ty.Structure, f.name):
                    old = getattr(o, f.name)
                    new = old + op["n"]
                    if int(new) >= 1 << (8 * w):
                        break
                    try:
                        setattr(o, f.name, new)
                        out = o.dumps()
                    except Exception as e:  # noqa: BLE001
                        fail("assign", f"assigning {f.name} + {op['n']} and dumping raised {e!r}")
                    b = out[f.offset:f.offset + w]
                    if b != int(new).to_bytes(w, bo()):
                        fail("assign", f"after {f.name} += {op['n']} ({int(old):#x}) the dumped pointer is {b.hex()}")
                    ctx.stat("probe:written_address")
                    break
            ctx.log(j, "assign")
        elif op["op"] == "nostream":
            P = type(h.p)
            qs = [P(op["n"], None), P(0, None), P(op["n"], None) + 4]
            T = cs.resolve(prog["top"])
            out = []
            pointers(T(), T, T(), T, out)
            if any(int(q[0]) for q in out):
                fail("null", f"default values of pointers are {[int(q[0]) for q in out]}")
            for q in qs + [q[0] for q in out]:
                try:
                    v = q.dereference()
                except NullPointerDereference:
                    pass
                except Exception as e:  # noqa: BLE001
                    fail("null", f"dereferencing a pointer without stream raised {e!r}")
                else:
                    fail("null", f"dereferencing a pointer without stream gave {v!r}")
            ctx.stat("probe:no_stream")
            # parsing a pointer type directly
            b = int(h.addr & ((1 << (8 * w)) - 1)).to_bytes(w, bo())
            q = P(b)
            if int(q) != int.from_bytes(b, bo()) or type(q) is not P:
                fail("value", f"parsing {b.hex()} as {P.__name__} gives {q!r}")
        elif op["op"] == "endian":
            endian[0] = op["v"]
            cs.endian = op["v"]
            ref.endian = op["v"]
            objs.clear()
            ctx.stat("probe:endian_switch")
            ctx.log(j, "endian", op["v"])
    # a pointer's value never changes
    for h in handles:
        if int(h.p) != h.addr:
            fail("value", f"pointer value changed from {h.addr} to {int(h.p)}")
    ctx.nontrivial = compared >= 3


def may_refuse(v):
    return "'i!'" in repr(v) or "'nan'" in repr(v)


def check_bytes(p, addr, w, bo, fail):
    try:
        b = p.dumps()
    except Exception as e:  # noqa: BLE001
        fail("dumps", f"dumps of pointer {addr:#x} raised {e!r}")
    if b != addr.to_bytes(w, bo):
        fail("dumps", f"dumps of pointer {addr:#x} gives {b.hex()}")


def ptr_values(v):
    """All pointer values inside a plain value, in order."""
    out = []

    def rec(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "p":
                out.append(x[1])
            elif len(x) == 2 and x[0] == "s":
                for _, y in x[1]:
                    rec(y)
            elif len(x) == 2 and x[0] == "a":
                for y in x[1]:
                    rec(y)

    rec(v)
    return out


def shrink(plan):
    for i in range(len(plan["images"])):
        if len(plan["images"]) > 1:
            p = copy.deepcopy(plan)
            del p["images"][i]
            yield p
        for k in range(len(plan["images"][i]["objs"])):
            if len(plan["images"][i]["objs"]) > 1:
                p = copy.deepcopy(plan)
                del p["images"][i]["objs"][k]
                yield p
    if plan["late"]:
        yield {**copy.deepcopy(plan), "late": False}
    for i, im in enumerate(plan["images"]):
        b = bytes.fromhex(im["data"])
        for cut in (len(b) // 2, len(b) * 3 // 4, len(b) - 1):
            p = copy.deepcopy(plan)
            p["images"][i]["data"] = b[:cut].hex()
            yield p
        n = len(b)
        size = n // 2
        while size:
            for a in range(0, n, size):
                if any(b[a:a + size]):
                    p = copy.deepcopy(plan)
                    p["images"][i]["data"] = (b[:a] + bytes(len(b[a:a + size])) + b[a + size:]).hex()
                    yield p
            size //= 4
