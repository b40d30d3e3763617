"""C17: structure values - field-wise equality, consistent hash and truth value, construction, local assignment.

One run = one random definition (several classes, also twins with equal field counts that are loaded while instances of the older
classes are alive) and a history that creates instances (parsed, default, positional, keyword, clones differing in one field),
assigns fields (also nested ones and array elements), assigns values that cannot be written and takes them back, writes into failing
sinks and calls constructors with bad arguments.  After every operation all pairs of instances are compared field by field.
"""

from __future__ import annotations

import copy
import random

from .. import core, gen, real, simio
from .. import model as M
from . import common
from .c11 import native

RUNS = {"quick": 22000, "thorough": 400000}
RULE = ("one run = one random definition x 6-30 operations on up to 8 instances; after every operation equality, hash and truth value of "
        "all instances and pairs are compared with a field-by-field reference and dumped bytes with a bit-level buffer model; non-trivial = "
        "at least 2 checked assignments or constructions and 2 pairs of equal instances; distinct = event log digest")
STATE_MEASURE = "distinct (operation, origin, field kind, field count, position of the field, reader mode, alignment mode)"
REAL = ["all of dissect.cstruct"]
STUB = ["file object (simio.SimFile) for parsing and writing"]
ASSUMPTIONS = ["equality and truth of field values that are not structures or arrays is Python's own",
               "fields of anonymous members named like a class attribute (size, fields, ...) are excluded: known finding",
               "no NaN values (they are unequal to themselves)",
               "members of unions are assigned under C11, here only whole unions"]
PROBES = ["equal_pair", "unequal_pair", "same_values_other_class", "hash_equal", "unhashable", "falsy", "truthy", "ctor_positional",
          "ctor_keyword", "ctor_mixed", "one_field_differs", "last_field_differs", "bitfield_assignment", "negative_bits", "shorter_string", "nested_assignment",
          "array_element_assignment", "anonymous_assignment", "many_fields", "class_added_later", "other_cstruct", "strange_names",
          "dynamic_structure", "whole_struct_assignment", "union_value", "zero_unspecified", "equal_values_other_name"]
FAULTS = ["unwritable_value", "write_raise", "bad_constructor_call", "truncated_parse"]
LISTS = ("ops",)
NAMES = gen.NAMES + ["self", "cls", "other", "args", "kwargs", "any", "hash", "all", "obj", "stream", "context", "fields", "lookup", "read", "write",
                     "alignment", "dynamic", "result", "property", "_", "object", "super", "int", "field", "vals", "i", "v", "sizes"]
PLAINNAMES = gen.NAMES


def generate(rng, tier):
    strange = rng.random() < 0.4
    names = [x for x in (NAMES if strange else PLAINNAMES) if x not in ("int",)]
    for _ in range(8):
        g, prog, m = common.program(rng, maxstruct=4, off=("eof",), topunion=0.06, charbits=False, names=names, nocompile=0.1, enumdup=0.4, explicit=0.12,
                                    need=rng.choice([(), ("bits",), ("nested",), ("anon",), ("farr", "nested")]), density=0.45)
        if prog is not None:
            break
    else:
        return None
    if rng.random() < 0.06:
        # very many fields
        n = rng.choice([60, 255, 256, 257, 300, 520])
        prog["decls"].append({"k": "struct", "name": "Big", "fields": [
            {"n": f"f{i}", "t": ["n", rng.choice(["uint8", "uint8", "int16", "uint32"])]} for i in range(n)]})
        prog["top"] = "Big"
    twins = []
    structs = [d for d in prog["decls"] if d["k"] == "struct" and d["name"]]
    if structs and rng.random() < 0.7:
        for i in range(rng.choice([1, 1, 2])):
            d = copy.deepcopy(rng.choice(structs))
            if "expr" in core.jdump(d["fields"]) or '["expr' in core.jdump(d) or d.get("selfref"):
                continue
            d.pop("style", None)
            d.pop("aliases", None)
            d["name"] = f"Tw{i}"
            named = [f for f in d["fields"] if f["n"]]
            ns = [f["n"] for f in named]
            rng.shuffle(ns)
            if rng.random() < 0.6:
                for f, n in zip(named, ns):
                    f["n"] = n
            twins.append(d)
    ops = []
    for _ in range(rng.randrange(6, 31)):
        x = rng.random()
        op = {"o": rng.randrange(1000), "seed": rng.getrandbits(32)}
        if x < 0.22:
            op["op"] = "new"
            op["how"] = rng.choice(["parse", "parse", "default", "kw", "pos", "mix", "kw", "mix"])
            op["c"] = rng.randrange(1000) if rng.random() < 0.6 else -1
        elif x < 0.50:
            op["op"] = "set"
            op["p"] = rng.randrange(1000)
            op["native"] = rng.random() < 0.4
            op["zero"] = rng.random() < 0.15
        elif x < 0.62:
            op["op"] = "near"
            op["p"] = rng.choice([-1, -1, 0, rng.randrange(1000)])
        elif x < 0.72:
            op["op"] = "clone"
            op["how"] = rng.choice(["dumps", "kw", "pos", "set"])
            op["c"] = rng.choice([-1, -1, -1, rng.randrange(1000)])
        elif x < 0.80:
            op["op"] = "bad"
            op["p"] = rng.randrange(1000)
        elif x < 0.85:
            op["op"] = "sink"
            op["at"] = rng.randrange(0, 5)
        elif x < 0.90:
            op["op"] = "badctor"
            op["c"] = rng.randrange(1000)
        elif x < 0.94:
            op["op"] = "cut"
            op["c"] = rng.randrange(1000)
        else:
            op["op"] = "load"
        ops.append(op)
    return {"prog": prog, "twins": twins, "compiled": rng.random() < 0.5, "two": rng.random() < 0.3, "ops": ops}


def leaves(st, path=(), out=None):
    """Assignable places of a fixed-size structure outside of unions: [(path, field, byte offset, type)]; path steps are field
    indexes, ("i", n) for array elements."""
    if out is None:
        out = []

    def rec(st, path, off):
        for i, f in enumerate(st.fields):
            p = (*path, i)
            o = off + f.offset
            if f.name is not None:
                out.append((p, f, o, f.type))
            t = f.type
            if isinstance(t, M.TStruct) and not t.union:
                rec(t, p, o)
            elif isinstance(t, M.TArray) and isinstance(t.count, int) and not isinstance(t.elem, (M.TChar, M.TWchar)):
                for k in range(min(3, max(0, t.count))):
                    q = (*p, ("i", k))
                    eo = o + k * t.elem.size
                    out.append((q, None, eo, t.elem))
                    if isinstance(t.elem, M.TStruct) and not t.elem.union:
                        rec(t.elem, q, eo)

    rec(st, path, 0)
    return out


def nan(v):
    return "'nan'" in repr(v)


class Cls:
    def __init__(self, T, mt, cs, name):
        self.T, self.mt, self.cs, self.name = T, mt, cs, name


class Inst:
    def __init__(self, o, c, buf, origin):
        self.o, self.c, self.buf, self.origin = o, c, buf, origin


def names_of(mt):
    """Names of all fields including those of anonymous members."""
    out = []
    for f in mt.fields:
        if f.name is None:
            out += names_of(f.type)
        else:
            out.append(f.name)
    return out


def eq_ref(a, b, mt):
    """Field-wise equality by the declared structure."""
    for f in mt.fields:
        if f.name is None:
            if not eq_ref(a, b, f.type):
                return False
        elif not eq_val(getattr(a, f.name), getattr(b, f.name), f.type, f.bits):
            return False
    return True


def eq_val(x, y, t, bits=None):
    if isinstance(t, M.TStruct) and not bits:
        return x.__class__ is y.__class__ and eq_ref(x, y, t)
    if isinstance(t, M.TArray) and isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(eq_val(a, b, t.elem) for a, b in zip(x, y))
    return bool(x == y)


def true_ref(a, mt):
    for f in mt.fields:
        if f.name is None:
            if true_ref(a, f.type):
                return True
        else:
            v = getattr(a, f.name)
            if isinstance(f.type, M.TStruct) and not f.bits:
                if true_ref(v, f.type):
                    return True
            elif v:
                return True
    return False


def hashable_ref(a, mt):
    for f in mt.fields:
        if f.name is None:
            if not hashable_ref(a, f.type):
                return False
        else:
            v = getattr(a, f.name)
            if isinstance(f.type, M.TStruct) and not f.bits:
                if not hashable_ref(v, f.type):
                    return False
            else:
                if isinstance(v, (int, bytes, str, float)):
                    continue  # enum and flag values, pointers and characters included
                try:
                    hash(v)
                except TypeError:
                    return False
    return True


def execute(plan, ctx):
    prog = plan["prog"]
    model = common.make_model(prog)
    text = gen.text(prog)
    systems = [common.try_build(prog, plan["compiled"])]
    if plan["two"]:
        systems.append(common.try_build(prog, plan["compiled"]))
        ctx.stat("probe:other_cstruct")
    classes = []
    for cs in systems:
        for d in prog["decls"]:
            if d["k"] in ("struct", "union"):
                n = d["name"] or (d.get("aliases") or [None])[0]
                mt = model.types.get(n)
                if isinstance(mt, M.TStruct):
                    classes.append(Cls(cs.resolve(n), mt, cs, n))
    if not classes:
        raise core.Skip("no structures")
    ctx.stat("probe:many_fields", any(len(c.mt.fields) > 50 for c in classes))
    ctx.stat("probe:strange_names", any(n not in PLAINNAMES for c in classes for n in names_of(c.mt)))
    twins = list(plan["twins"])
    insts = []
    what = ""

    def fail(cls, msg):
        ctx.fail(cls, f"{what}: {msg}\ncompiled={plan['compiled']} endian={prog['endian']} align={prog['align']}\n"
                 f"{text}{''.join(gen.join(gen.decl_tokens(d)) for d in plan['twins'])}")

    def sample(c, rng):
        """Random valid bytes and plain value of a class without NaN."""
        for _ in range(5):
            d = gen.gen_data(model, c.mt, rng, 0, tries=3, limit=1500)
            if d is not None and not nan(d[1]):
                return d[0], d[1]
        return None

    def parse(c, data):
        try:
            return c.T.read(simio.SimFile(data))
        except Exception as e:  # noqa: BLE001
            fail("parse", f"parsing {data.hex()} as {c.name} raised {e!r}")

    def dumps(i, expected=True):
        try:
            return i.c.T.dumps(i.o) if "dumps" in names_of(i.c.mt) else i.o.dumps()
        except Exception as e:  # noqa: BLE001
            if expected:
                fail("dumps", f"dumps of a {i.c.name} ({i.origin}) raised {e!r}")
            return None

    def writable(c):
        return not (c.mt.size is None and contains_union(c.mt))

    def contains_union(t):
        if isinstance(t, M.TArray):
            return contains_union(t.elem)
        return isinstance(t, M.TStruct) and ((t.union and t.size is None) or any(contains_union(f.type) for f in t.fields))

    def keep(i):
        insts.append(i)
        if len(insts) > 8:
            insts.pop(0)
        return i

    def buffer_of(c, o, origin):
        """Model buffer of a new instance of a fixed-size class: what it dumps, checked against its values."""
        i = Inst(o, c, None, origin)
        if c.mt.size is not None:
            i.buf = dumps(i)
            if len(i.buf) != c.mt.size:
                fail("dumps", f"dumps of a {c.name} gives {len(i.buf)} bytes, size is {c.mt.size}")
        return i

    def settable(c):
        """(index, model field, library field) of named fields"""
        return [(k, f, c.T.__fields__[k]) for k, f in enumerate(c.mt.fields) if f.name is not None]

    def value(lib, v, rng):
        x = rng.random()
        if x < 0.3 and not lib.bits:
            return native(v, lib.type)
        return alias(v, lib.type, rng) if x > 0.7 else v

    def construct(c, how, rng):
        """T(values) against assigning the values on a default instance."""
        d = sample(c, rng)
        if d is None:
            return None
        src = parse(c, d[0])
        fields = [(k, f, c.T.__fields__[k]) for k, f in enumerate(c.mt.fields)]
        npos = 0
        kw = []
        if how in ("pos", "mix"):
            npos = rng.randrange(0, len(fields) + 1)
        if how in ("kw", "mix"):
            kw = [x for x in fields[npos:] if x[1].name is not None and rng.random() < 0.6]
            rng.shuffle(kw)
        args = [value(lf, getattr(src, lf._name), rng) for _, f, lf in fields[:npos]]
        if len(args) == 1 and isinstance(args[0], (bytes, bytearray, memoryview)):
            if not kw:
                return None  # one positional buffer is input to parse
            args, npos = [], 0
        kws = {f.name: value(lf, getattr(src, lf._name), rng) for _, f, lf in kw}
        shown = [repr(a) for a in args] + [f"{k}={v!r}" for k, v in kws.items()]
        try:
            o = c.T(*copy.copy(args), **copy.copy(kws))
        except Exception as e:  # noqa: BLE001
            fail("ctor", f"{c.name}({', '.join(shown)}) raised {e!r}")
        if c.mt.union:
            # assigning several members of a union overwrites: C11
            if len(args) + len(kws) != 0:
                return None
        ref = c.T()
        given = {f.name for _, f, _ in kw}
        for (_, f, lf), v in zip(fields[:npos], args):
            if f.name is None:
                for sub in names_of(f.type):
                    if not f.type.union:
                        setattr(ref, sub, getattr(v, sub))
            else:
                setattr(ref, f.name, v)
                given.add(f.name)
        for k, v in kws.items():
            setattr(ref, k, v)
        unions = any(f.name is None and contains_any_union(f.type) for _, f, _ in fields[:npos])
        zero = dict((id(f), model.zero(f.type)) for f in c.mt.fields)
        for k, f, lf in fields:
            got = real.plain(getattr(o, lf._name), lf.type, lf.bits)
            if k >= npos and f.name not in given:
                if got != zero[id(f)]:
                    fail("zero", f"{c.name}({', '.join(shown)}): unspecified {f.name} is {got!r}, zero value is {zero[id(f)]!r}")
                ctx.stat("probe:zero_unspecified")
            exp = real.plain(getattr(ref, lf._name), lf.type, lf.bits)
            if got != exp and not unions:
                fail("ctor", f"{c.name}({', '.join(shown)}): {f.name} is {got!r}, after assigning on a default instance {exp!r}")
            src_v = real.plain(getattr(src, lf._name), lf.type, lf.bits)
            if (k < npos or f.name in given) and same_plain(got, src_v) is False:
                fail("ctor", f"{c.name}({', '.join(shown)}): {f.name} is {got!r}, given {src_v!r}")
        if not unions and (not (o == ref) or o != ref):
            fail("ctor-eq", f"{c.name}({', '.join(shown)}) is not equal to a default instance with these fields assigned")
        if not unions and writable(c):
            i, r = Inst(o, c, None, how), Inst(ref, c, None, "ref")
            a, b = dumps(i, False), dumps(r, False)
            if a != b:
                fail("ctor", f"{c.name}({', '.join(shown)}) dumps {a and a.hex()}, with the fields assigned {b and b.hex()}")
        ctx.stat("probe:ctor_positional", npos and not kws)
        ctx.stat("probe:ctor_keyword", len(kws) and not npos)
        ctx.stat("probe:ctor_mixed", bool(npos and kws))
        ctx.state("ctor", how, npos, len(kws), len(fields), plan["compiled"])
        ctx.log("ctor", c.name, npos, sorted(kws), repr(real.plain(o, c.T)))
        return o

    checked = equal = 0

    def compare():
        nonlocal equal
        for x, a in enumerate(insts):
            t = true_ref(a.o, a.c.mt)
            try:
                got = bool(a.o)
            except Exception as e:  # noqa: BLE001
                fail("bool", f"bool() of {a.o!r} raised {e!r}")
            if got is not t:
                fail("bool", f"bool() of {a.o!r} ({a.origin}) is {got}")
            ctx.stat("probe:truthy" if t else "probe:falsy")
            try:
                ha = hash(a.o)
            except TypeError as e:
                ha = None
                if hashable_ref(a.o, a.c.mt):
                    fail("hash", f"hash() of {a.o!r} raised {e!r}, but all its fields are hashable")
                ctx.stat("probe:unhashable")
            except Exception as e:  # noqa: BLE001
                fail("hash", f"hash() of {a.o!r} raised {e!r}")
            if ha is not None and hash(a.o) != ha:
                fail("hash", f"hash() of {a.o!r} is not stable")
            for b in insts[x:]:
                want = a.c.T is b.c.T and eq_ref(a.o, b.o, a.c.mt)
                try:
                    r = (a.o == b.o, b.o == a.o, not (a.o != b.o), not (b.o != a.o))
                except Exception as e:  # noqa: BLE001
                    fail("eq", f"comparing {a.o!r} with {b.o!r} raised {e!r}")
                if any(q is not want for q in r):
                    fail("eq", f"{a.o!r} ({a.c.name}, {a.origin}) and {b.o!r} ({b.c.name}, {b.origin}): ==, reversed, not != give {r}, field "
                         f"by field they are {'equal' if want else 'different'}")
                if want and a is not b and repr(a.o) != repr(b.o):
                    ctx.stat("probe:equal_values_other_name", "E" in repr(a.o))
                if a is not b:
                    ctx.stat("probe:equal_pair" if want else "probe:unequal_pair")
                    equal += want
                    if a.c.T is not b.c.T and len(a.c.mt.fields) == len(b.c.mt.fields) and real.plain(a.o, a.c.T)[1:] == real.plain(b.o, b.c.T)[1:]:
                        ctx.stat("probe:same_values_other_class")
                if want and ha is not None:
                    if hash(b.o) != ha:
                        fail("hash", f"{a.o!r} and {b.o!r} are equal, their hashes {ha} and {hash(b.o)}")
                    ctx.stat("probe:hash_equal", a is not b)
            for other in (5, None, "x", a.c.T, ()):
                if a.o == other or not (a.o != other):
                    fail("eq", f"{a.o!r} is equal to {other!r}")

    def reach(i, path):
        """(container, attribute or index) of a place."""
        o, lt = i.o, i.c.T
        for n, s in enumerate(path):
            last = n == len(path) - 1
            if isinstance(s, int):
                lf = lt.__fields__[s]
                if last:
                    return o, lf, lf.type
                if lf.name is not None:
                    o = getattr(o, lf.name)
                # members of anonymous structures are assigned through the outer structure
                lt = lf.type
            else:
                if last:
                    return o, s[1], lt.type
                o, lt = o[s[1]], lt.type

    def assign(i, leaf, v, bits_new, label):
        """Assign v at a place of i, and check that exactly its bits change."""
        nonlocal checked
        path, f, off, t = leaf
        n = i.c.mt.size
        before = dumps(i)
        if before != i.buf:
            fail("changed", f"an instance of {i.c.name} ({i.origin}) dumps {before.hex()}, it dumped {i.buf.hex()} before")
        cont, key, lt = reach(i, path)
        try:
            if isinstance(key, int):
                cont[key] = v
            else:
                setattr(cont, key.name, v)
        except Exception as e:  # noqa: BLE001
            fail("assign", f"{label} raised {e!r}")
        after = dumps(i)
        mask, region = place_bits(model, f, off, t)
        x, y = int.from_bytes(before, "little"), int.from_bytes(after, "little")
        if len(after) != n or (x ^ y) & ~region:
            fail("local", f"{label} changed {before.hex()} to {after.hex()}, the bits of the field are {region.to_bytes(n, 'little').hex()}")
        if (y ^ bits_new) & mask:
            fail("local", f"{label} gives {after.hex()}, expected {(bits_new & mask).to_bytes(n, 'little').hex()} at "
                 f"{mask.to_bytes(n, 'little').hex()}")
        if f is not None and f.bits and isinstance(v, int) and v < 0:
            # the same bits, as they are when parsed
            setattr(cont, key.name, v & ((1 << f.bits) - 1))
            if dumps(i) != after:
                fail("local", f"{label} gives {after.hex()}, the same bits assigned as a positive number {dumps(i).hex()}")
            ctx.stat("probe:negative_bits")
        i.buf = after
        src = M.Source(after)
        try:
            want, _ = model.read(i.c.mt, src, 0)
        except (M.Invalid, M.Short):
            return
        got = real.plain(i.o, i.c.T)
        if not same_plain(got, want):
            fail("members", f"{label}: values are {got!r}, the dumped bytes {after.hex()} parse as {want!r}")
        checked += 1
        ctx.stat("probe:bitfield_assignment", bool(f and f.bits))
        ctx.stat("probe:nested_assignment", len(path) > 1)
        ctx.stat("probe:array_element_assignment", any(not isinstance(s, int) for s in path))
        ctx.stat("probe:whole_struct_assignment", isinstance(t, M.TStruct))
        lt = i.c.T
        for s in path[:-1]:
            if isinstance(s, int):
                ctx.stat("probe:anonymous_assignment", lt.__fields__[s].name is None)
                lt = lt.__fields__[s].type
            else:
                lt = lt.type
        ctx.state("set", type(t).__name__, bool(f and f.bits), len(i.c.mt.fields), path[0], len(path), i.origin, plan["compiled"], prog["align"])

    def fits(i, leaf, v, got, label):
        """A string of another length than that of the field was written: it must not reach beyond the field."""
        _path, f, off, t = leaf
        raw = v if isinstance(v, bytes) else v.encode("utf-16-le" if model.bo() == "little" else "utf-16-be")
        if len(raw) > t.size:
            fail("local", f"{label} = {v!r} is too long, but dumps {got.hex()}")
        raw = raw.ljust(t.size, b"\0")
        want = i.buf[:off] + raw + i.buf[off + t.size:]
        if got != want:
            fail("local", f"{label} = {v!r} changed {i.buf.hex()} to {got.hex()}, expected {want.hex()}")
        ctx.stat("probe:shorter_string")

    def new_value(i, leaf, rng, native_ok=False, zero=False, negative=False):
        """A library value for a place with the bits it stands for, or None."""
        path, f, off, t = leaf
        cont, key, lt = reach(i, path)
        if f is not None and f.bits:
            sto = M.storage(t)
            x = 0 if zero else rng.getrandbits(f.bits)
            if isinstance(t, M.TEnum) and rng.random() < 0.4:
                x = rng.choice(list(t.members.values())) & ((1 << f.bits) - 1)
            sh = f.shift if model.bo() == "little" else sto.size * 8 - f.shift - f.bits
            v = alias(lt(x), lt, rng) if isinstance(t, M.TEnum) else x
            if negative and isinstance(t, M.TInt) and t.signed and x >> (f.bits - 1):
                v = x - (1 << f.bits)
            return v, int.from_bytes((x << sh).to_bytes(sto.size, model.bo()), "little") << (8 * off)
        for _ in range(6):
            b = zero_bytes(model, t, rng) if zero else rng.randbytes(t.size)
            if not zero and enums_in(t) and rng.random() < 0.7:
                d = gen.gen_data(model, t, rng, 0)  # mostly members
                b = d[0] if d is not None else b
            try:
                v, _ = model.read(t, M.Source(b), 0)
            except (M.Invalid, M.Short):
                continue
            if not nan(v):
                break
        else:
            b = bytes(t.size)
        try:
            v = lt.read(b)
        except Exception as e:  # noqa: BLE001
            raise core.Skip(repr(e)) from None
        if native_ok:
            v = native(v, lt)
        else:
            v = alias(v, lt, rng)
        return v, int.from_bytes(b, "little") << (8 * off)

    def new(c, how, rng):
        if how == "parse":
            d = sample(c, rng)
            if d is None:
                return None
            o = parse(c, d[0])
            if not same_plain(real.plain(o, c.T), d[1]):
                raise core.Skip("C02")
        elif how == "default":
            o = c.T()
            if not same_plain(real.plain(o, c.T), model.zero(c.mt)):
                fail("zero", f"default values of {c.name} are {real.plain(o, c.T)!r}, expected {model.zero(c.mt)!r}")
        else:
            o = construct(c, how, rng)
            if o is None:
                return None
        ctx.stat("probe:dynamic_structure", c.mt.size is None)
        ctx.stat("probe:union_value", contains_any_union(c.mt))
        return keep(buffer_of(c, o, how))

    what = "setup"
    rng = random.Random(core.jdump(prog))
    for how in ("parse", "default"):
        new(classes[-1], how, rng)
    for j, op in enumerate(plan["ops"]):
        rng = random.Random(op["seed"])
        what = f"op {j} {op}"
        kind = op["op"]
        c = classes[op["c"] % len(classes)] if op.get("c", -1) >= 0 else next(x for x in classes if x.name == prog["top"]) \
            if any(x.name == prog["top"] for x in classes) else classes[-1]
        i = insts[op["o"] % len(insts)] if insts else None
        if kind == "new":
            if new(c, op["how"], rng) and op["how"] not in ("parse", "default"):
                checked += 1
            ctx.log(j, "new", op["how"], c.name)
        elif kind in ("set", "bad"):
            if i is None or i.c.mt.size is None or i.c.mt.union:
                continue
            ls = leaves(i.c.mt)
            if not ls:
                continue
            leaf = ls[op["p"] % len(ls)]
            cont, key, lt = reach(i, leaf[0])
            label = f"assigning {'.'.join(str(s) for s in leaf[0])} ({key if isinstance(key, int) else key.name}: {lt.__name__}) of a {i.c.name} ({i.origin})"
            if kind == "set":
                v, bits = new_value(i, leaf, rng, op["native"], op["zero"], op["native"])
                assign(i, leaf, v, bits, f"{label} = {v!r}")
                ctx.log(j, "set", leaf[0], i.buf.hex())
            else:
                # a value that cannot be written, then the old one again
                old = cont[key] if isinstance(key, int) else getattr(cont, key.name)
                t = leaf[3]
                text = isinstance(t, M.TArray) and isinstance(t.elem, (M.TChar, M.TWchar))
                if text and rng.random() < 0.7:
                    # a string of another length
                    k = rng.choice([0, 1, t.size - 1, t.size + 1, t.size + rng.randrange(1, 9), 2 * t.size])
                    junk = bytes(rng.randrange(1, 128) for _ in range(max(0, k) if isinstance(t.elem, M.TChar) else max(0, k) // 2))
                    junk = junk if isinstance(t.elem, M.TChar) else junk.decode("latin-1")
                elif isinstance(old, list) or isinstance(t, M.TStruct):
                    junk = rng.choice([["bad"], 5, object()])
                else:
                    junk = rng.choice(["bad", object(), [1], 1 << 200, -(1 << 200)])
                try:
                    if isinstance(key, int):
                        cont[key] = junk
                    else:
                        setattr(cont, key.name, junk)
                    got = i.o.dumps()
                except Exception:  # noqa: BLE001
                    ctx.stat("fault:unwritable_value")
                else:
                    if text and isinstance(junk, bytes if isinstance(t.elem, M.TChar) else str):
                        fits(i, leaf, junk, got, label)
                if isinstance(key, int):
                    cont[key] = old
                else:
                    setattr(cont, key.name, old)
                got = dumps(i)
                if got != i.buf:
                    fail("local", f"{label} = {junk!r} and back changed {i.buf.hex()} to {got.hex()}")
                ctx.log(j, "bad", leaf[0])
        elif kind == "near":
            if i is None or i.c.mt.size is None or i.c.mt.union:
                continue
            data = dumps(i)
            if data != i.buf:
                fail("changed", f"an instance of {i.c.name} ({i.origin}) dumps {data.hex()}, it dumped {i.buf.hex()} before")
            o = parse(i.c, data)
            n = keep(buffer_of(i.c, o, "near"))
            ls = [q for q in leaves(i.c.mt) if len(q[0]) == 1 or q[0][:1] and i.c.mt.fields[q[0][0]].name is None]
            if not ls:
                continue
            leaf = ls[op["p"] % len(ls)] if op["p"] >= 0 else ls[-1]
            v, bits = new_value(n, leaf, rng)
            assign(n, leaf, v, bits, f"assigning field {leaf[0]} of a clone = {v!r}")
            ctx.stat("probe:one_field_differs")
            ctx.stat("probe:last_field_differs", leaf is ls[-1])
            ctx.log(j, "near", leaf[0], n.buf.hex())
        elif kind == "clone":
            if i is None:
                continue
            tc = i.c
            if op["c"] >= 0:
                # the same values in another class with as many fields
                others = [q for q in classes if q.T is not i.c.T and len(q.mt.fields) == len(i.c.mt.fields)]
                if others:
                    tc = others[op["c"] % len(others)]
            try:
                src = i.c.T.read(i.o.dumps())  # values of its own
                if op["how"] == "dumps" or tc is not i.c or any(f.name is None for f in tc.mt.fields) or tc.mt.union:
                    o = tc.T.read(i.o.dumps())
                elif op["how"] == "kw":
                    o = tc.T(**{f.name: getattr(src, f.name) for f in tc.mt.fields})
                elif op["how"] == "pos":
                    o = tc.T(*[getattr(src, f.name) for f in tc.mt.fields])
                else:
                    o = tc.T()
                    for f in tc.mt.fields:
                        setattr(o, f.name, getattr(src, f.name))
                k = Inst(o, tc, None, "clone")
                if tc.mt.size is not None:
                    k.buf = o.dumps()
            except Exception as e:  # noqa: BLE001
                if tc is i.c and tc.mt.size is not None and op["how"] != "pos":
                    fail("clone", f"cloning {i.o!r} ({op['how']}) raised {e!r}")
                continue
            if nan(real.plain(o, tc.T)):
                continue
            keep(k)
            ctx.log(j, "clone", op["how"], tc.name)
        elif kind == "sink":
            if i is None:
                continue
            s = simio.SimFile(b"", faults=[{"op": "write", "at": op["at"], "kind": "raise", "exc": "OSError"}])
            try:
                i.c.T.write(s, i.o)
            except Exception:  # noqa: BLE001
                pass
            ctx.stat("fault:write_raise", len(s.fired))
            if i.buf is not None and dumps(i) != i.buf:
                fail("changed", f"after a failing write, a {i.c.name} dumps {dumps(i).hex()}, before {i.buf.hex()}")
            ctx.log(j, "sink", len(s.fired))
        elif kind == "badctor":
            bad = rng.choice(["kw", "many"])
            try:
                if bad == "kw":
                    c.T(no_such_field=1)
                else:
                    c.T(*range(len(c.mt.fields) + 2))
            except Exception:  # noqa: BLE001
                ctx.stat("fault:bad_constructor_call")
            ctx.log(j, "badctor", bad)
        elif kind == "cut":
            d = sample(c, rng)
            if d is None or not d[0]:
                continue
            try:
                c.T.read(simio.SimFile(d[0][:rng.randrange(len(d[0]))]))
            except Exception:  # noqa: BLE001
                ctx.stat("fault:truncated_parse")
        elif kind == "load":
            if not twins:
                continue
            d = twins.pop(0)
            try:
                model.declare(d)
            except (M.Invalid, KeyError):
                continue
            for cs in systems:
                try:
                    real.load(cs, [d], plan["compiled"], bool(prog["align"]))
                except Exception as e:  # noqa: BLE001
                    raise core.Skip(f"twin rejected: {e!r}") from None
                classes.append(Cls(cs.resolve(d["name"]), model.types[d["name"]], cs, d["name"]))
                ctx.stat("probe:class_added_later")
                keep_new = classes[-1]
            new(keep_new, rng.choice(["parse", "default", "kw"]), rng)
            ctx.log(j, "load", d["name"])
        compare()
    for i in insts:
        if i.buf is not None and dumps(i) != i.buf:
            what = "end"
            fail("changed", f"an instance of {i.c.name} ({i.origin}) dumps {dumps(i).hex()}, it dumped {i.buf.hex()} before")
    ctx.nontrivial = checked >= 2 and equal >= 2


def contains_any_union(t):
    if isinstance(t, M.TArray):
        return contains_any_union(t.elem)
    return isinstance(t, M.TStruct) and (t.union or any(contains_any_union(f.type) for f in t.fields))


def same_plain(a, b):
    """Equality of plain values, with floats compared numerically."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if len(a) == 2 and a[0] == "f" == b[0]:
            return a == b or float(a[1]) == float(b[1])
        return all(same_plain(x, y) for x, y in zip(a, b))
    return a == b


def alias(v, t, rng):
    """The same value with enum members picked by name where several names stand for it."""
    from dissect.cstruct import types as ty

    if issubclass(t, ty.Enum) and isinstance(v, t):
        names = [n for n, m in t.__members__.items() if m.value == v.value]
        return t.__members__[rng.choice(names)] if names else v
    if issubclass(t, ty.BaseArray) and isinstance(v, list):
        return [alias(x, t.type, rng) for x in v]
    return v


def enums_in(t):
    while isinstance(t, M.TArray):
        t = t.elem
    return isinstance(t, M.TEnum)


def zero_bytes(model, t, rng):
    """Bytes of a value whose fields are all falsy: zero of either sign."""
    if isinstance(t, M.TFloat):
        sign = b"\x80" if rng.random() < 0.5 else b"\0"
        return bytes(t.size - 1) + sign if model.bo() == "little" else sign + bytes(t.size - 1)
    if isinstance(t, M.TArray) and isinstance(t.count, int):
        return b"".join(zero_bytes(model, t.elem, rng) for _ in range(t.count))
    if isinstance(t, M.TStruct) and not t.union:
        b = bytearray(t.size)
        for f in t.fields:
            if not f.bits:
                z = zero_bytes(model, f.type, rng)
                b[f.offset:f.offset + len(z)] = z
        return bytes(b)
    return bytes(t.size)


def place_bits(model, f, off, t):
    """(data bits, region bits) of a place as little-endian integers over the whole buffer."""
    if f is not None and f.bits:
        sto = M.storage(t)
        lo = f.shift if model.bo() == "little" else sto.size * 8 - f.shift - f.bits
        m = int.from_bytes((((1 << f.bits) - 1) << lo).to_bytes(sto.size, model.bo()), "little") << (8 * off)
        return m, m
    return int.from_bytes(model.mask(t), "little") << (8 * off), ((1 << (8 * t.size)) - 1) << (8 * off)


def shrink(plan):
    if plan["twins"]:
        for i in range(len(plan["twins"])):
            p = copy.deepcopy(plan)
            del p["twins"][i]
            yield p
            for k in range(len(plan["twins"][i]["fields"])):
                if len(plan["twins"][i]["fields"]) > 1:
                    p = copy.deepcopy(plan)
                    del p["twins"][i]["fields"][k]
                    yield p
    if plan["two"]:
        yield {**copy.deepcopy(plan), "two": False}
