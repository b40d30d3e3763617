"""C14: instances, defaults and cstruct objects are independent; parsing is a pure function of type and bytes.

One run = a history of construct / mutate / parse / dump / load / endianness operations, including ones that fail or are broken
off, over several cstruct objects holding same-named but different types.  After every operation all live instances are compared
with their shadow snapshots, and a randomly chosen type of a randomly chosen cstruct object must still parse and default-construct
to what an independent model (which has no state) says.
"""

from __future__ import annotations

import random
import sys

from .. import core, gen, real, refexpr, simio
from .. import model as M
from . import common

RUNS = {"quick": 24000, "thorough": 400000}
RULE = ("one run = 2-4 cstruct objects over 2-3 definition programs whose type names collide and a history of 8-40 operations; after "
        "each operation every live instance is compared with its snapshot and one random (object, type) is probed against the model; "
        "non-trivial = at least 2 mutations, 2 cstruct objects and 10 comparisons; distinct = event log digest")
STATE_MEASURE = "distinct (previous operation, operation, kind of mutated place, reader mode, own/other cstruct object)"
REAL = ["all of dissect.cstruct"]
STUB = ["file object (simio.SimFile)", "asynchronous interruption delivered by sys.settrace"]
ASSUMPTIONS = ["a mutated instance containing a union is re-snapshotted as a whole (coherence of its own members is C11's business)",
               "an instance whose own assignment was interrupted is dropped"]
PROBES = ["default_mutated_then_default", "nested_default_mutated", "array_element_mutated", "same_name_other_object", "endian_changed",
          "late_load", "length_without_fields", "parsed_mutated_then_parsed", "dump_repeated", "late_type", "hash_eq_calls", "late_constant", "lookup"]
FAULTS = ["truncated_parse", "device_error", "failing_sink", "failed_load", "interrupt"]
LISTS = ("ops",)
PROGS = ()

OPS = ["default", "default", "parse", "parse", "parse", "ctor", "mutate", "mutate", "mutate", "mutate", "mutate", "dump", "dump", "endian",
       "load", "badload", "cut", "device", "sink", "interrupt", "cmp", "array", "drop", "newtype", "newcs"]


def generate(rng, tier):
    progs = []
    models = []
    for i in range(rng.choice([2, 2, 3])):
        g, prog, m = common.program(rng, maxstruct=4, topunion=0.15, dynunion=0.15, nocompile=0.05, density=rng.choice([0.4, 0.6]), custom=True, lebenum=True, explicit=0.08)
        if prog is None:
            continue
        progs.append(prog)
        models.append(m)
    if not progs:
        return None
    if rng.random() < 0.5:
        # same definitions, other configuration
        p = common.clone(progs[0])
        p["align"] = not p["align"] if "'b': " not in repr(p) else p["align"]
        if rng.random() < 0.6:
            p["pointer"] = rng.choice(["uint8", "uint16", "uint32", "uint64", "uint64", "uint24", "uint48", "uint128"])
        for d in p["decls"]:
            if d["k"] == "const" and rng.random() < 0.7:
                d["text"] = str(rng.randrange(0, 6))  # same names, other values
            elif d["k"] == "enum" and rng.random() < 0.3 and "'b': " not in repr(p):
                d["base"] = rng.choice(["uint8", "uint16", "uint32"])
        try:
            models.append(M.Model(p))
            progs.append(p)
        except M.Invalid:
            pass
    css = [{"p": i if i < len(progs) else rng.randrange(len(progs)), "endian": rng.choice("<>"), "compiled": rng.random() < 0.6,
            "bare": rng.random() < 0.5}
           for i in range(rng.choice([2, 3, 4]))]
    ops = [{"op": rng.choice(OPS), "c": rng.randrange(len(css)), "i": rng.randrange(8), "t": rng.randrange(16), "seed": rng.getrandbits(32),
            "probe": rng.randrange(64)} for _ in range(rng.randrange(8, 41))]
    return {"progs": progs, "cs": css, "ops": ops}


class Interrupt:
    """Asynchronous interruption at the n-th line event inside the library."""

    def __init__(self, at):
        self.left = at
        self.fired = False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)

    def __exit__(self, *a):
        sys.settrace(self.old)

    def glob(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self.local if f.startswith(core.LIBDIR) or f.startswith("<compiled") else None

    def local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.left -= 1
            if self.left < 0:
                self.fired = True
                raise KeyboardInterrupt("injected interruption")
        return self.local


class Space:
    """One cstruct object with the (stateless) model of what its types must do."""

    def __init__(self, plan, spec):
        self.prog = {**plan["progs"][spec["p"] % len(plan["progs"])], "endian": spec["endian"]}
        self.compiled = spec["compiled"]
        self.models = {}
        self.extra = []
        self.cs = common.try_build(self.prog, self.compiled, bare=spec.get("bare", False))
        self.endian = spec["endian"]
        self.n = 0
        self.lookups = {}
        self.refresh()

    def refresh(self):
        self.state = namespace(self.cs)

    def model(self):
        key = (self.endian, len(self.extra))
        if key not in self.models:
            self.models[key] = common.make_model({**self.prog, "endian": self.endian, "decls": self.prog["decls"] + self.extra})
        return self.models[key]

    def names(self):
        out = []
        for d in self.prog["decls"] + self.extra:
            if d["k"] in ("struct", "union"):
                out += [d["name"], d["name"]]
            elif d["k"] == "typedef":
                out += d["names"]
            elif d["k"] != "const" and d.get("name"):
                out.append(d["name"])
        return out


def namespace(cs):
    """Everything one cstruct object holds by name; types by identity, so that replaced ones show."""
    return {"typedefs": dict(cs.typedefs), "consts": dict(cs.consts), "lookups": {k: dict(v) for k, v in cs.lookups.items()},
            "endian": cs.endian, "pointer": cs.pointer}


def bare_names():
    """What a cstruct object without definitions holds: names with the kind and size of their types."""
    from dissect.cstruct import cstruct

    cs = cstruct()
    types = {}
    for n, t in cs.typedefs.items():
        types[n] = t if isinstance(t, str) else (t.__name__, t.size, t.alignment, cs is t.cs)
    return types, dict(cs.consts), dict(cs.lookups), cs.endian, (cs.pointer.__name__, cs.pointer.size)


def places(v, t, path=(), depth=0):
    """Mutable places below value v of library type t: (path, kind, holder, key, type, bits)."""
    from dissect.cstruct import types as ty

    out = []
    if issubclass(t, ty.Structure):
        for i, f in enumerate(t.__fields__):
            x = getattr(v, f._name)
            if f.name is not None:
                out.append(((*path, i), "field" if not depth else "nested", v, f._name, f.type, f.bits))
            if isinstance(x, list) or issubclass(f.type, ty.Structure):
                out += places(x, f.type, (*path, i), depth + 1)
    elif isinstance(v, list):
        for i, x in enumerate(v):
            out.append(((*path, i), "element", v, i, t.type, None))
            if isinstance(x, list) or issubclass(t.type, ty.Structure):
                out += places(x, t.type, (*path, i), depth + 1)
        out.append((path, "list", v, None, t, None))
    return out


def has_union(t):
    from dissect.cstruct import types as ty

    if issubclass(t, ty.Structure):
        return issubclass(t, ty.Union) or any(has_union(f.type) for f in t.__fields__)
    if issubclass(t, ty.BaseArray):
        return has_union(t.type)
    return False


def fresh_value(t, bits, rng):
    """A new value for a place of library type t, or None."""
    from dissect.cstruct import types as ty

    if bits:
        x = rng.getrandbits(bits)
        return t(x) if issubclass(t, (ty.Enum, ty.Flag)) else x
    if t.size:
        try:
            return t.read(rng.randbytes(t.size))
        except Exception:  # noqa: BLE001
            return None
    if issubclass(t, ty.CharArray):
        return bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 4)))
    if issubclass(t, ty.WcharArray):
        return "".join(rng.choice("abcxyz\u20ac") for _ in range(rng.randrange(0, 4)))
    if issubclass(t, ty.LEB128):
        return t(rng.randrange(0, 5000))
    return None


def replaced(plain, path, new):
    """plain with the part at path replaced."""
    if not path:
        return new
    i = path[0]
    if plain[0] == "s":
        items = list(plain[1])
        items[i] = (items[i][0], replaced(items[i][1], path[1:], new))
        return ("s", tuple(items))
    items = list(plain[1])
    items[i] = replaced(items[i], path[1:], new)
    return ("a", tuple(items))


def at(plain, path):
    for i in path:
        plain = plain[1][i][1] if plain[0] == "s" else plain[1][i]
    return plain


def needs_fields(model, name):
    t = model.types[name]
    if not isinstance(t, M.TArray) or not isinstance(t.count, tuple):
        return False
    try:
        refexpr.evaluate(t.count[1], None, model.consts, model.sizeof)
    except refexpr.ExprError:
        return True
    return False


def is_nan(v):
    return "'nan'" in repr(v)


def execute(plan, ctx):
    if not plan["progs"]:
        raise core.Skip("no programs")
    bare = bare_names()
    spaces = []

    def open_space(spec, what):
        sp = Space(plan, spec)
        # only the default names and its own definitions are visible in a new object
        own = {n for d in sp.prog["decls"] for n in [d.get("name"), *d.get("names", [])] if n}
        hidden = {n for n in sp.cs.typedefs if n not in bare[0] and n not in own and n in foreign}
        ctx.check(not hidden, "namespace", lambda: f"{what}: a new cstruct object knows the types {sorted(hidden)} of other objects")
        consts = {d["name"] for d in sp.prog["decls"] if d["k"] == "const"}
        enums = {m for d in sp.prog["decls"] if d["k"] in ("enum", "flag") for m in names_in(d)}
        extra = set(sp.cs.consts) - consts - enums
        ctx.check(not extra and not sp.cs.lookups, "namespace",
                  lambda: f"{what}: a new cstruct object has constants {sorted(extra)} and lookups {sp.cs.lookups}")
        ctx.check(sp.cs.endian == spec["endian"] and sp.cs.pointer is sp.cs.resolve(sp.prog["pointer"]), "namespace",
                  lambda: f"{what}: a new cstruct object has endian {sp.cs.endian} and pointer {sp.cs.pointer.__name__}, expected "
                  f"{spec['endian']} and {sp.prog['pointer']}")
        foreign.update(own)
        spaces.append(sp)

    foreign = set()
    for s in plan["cs"]:
        open_space(s, "start")
    if not spaces:
        raise core.Skip("no objects")
    insts = []  # {"o", "T", "snap", "space", "name", "origin", "dump"}
    compared = mutations = 0
    trail = []
    mutated_types = set()
    prev = None

    def fail(cls, msg):
        ctx.fail(cls, msg + "\nhistory: " + "; ".join(trail[-30:]) + "\n" + "\n".join(
            f"object {i} (endian {s.endian} compiled {s.compiled} align {s.prog['align']} pointer {s.prog['pointer']}):\n" +
            gen.text({"decls": s.prog["decls"] + s.extra}) for i, s in enumerate(spaces)))

    def snap(x):
        return real.plain(x["o"], x["T"])

    def check_all(what, skip=None):
        nonlocal compared
        for q, x in enumerate(insts):
            if x is skip:
                continue
            try:
                now = snap(x)
            except Exception as e:  # noqa: BLE001
                fail("instance", f"after {what}: instance {q} ({x['name']} from {x['origin']}) can no longer be read: {e!r}")
            compared += 1
            if now != x["snap"]:
                fail("instance", f"{what} changed instance {q} ({x['name']} of object {spaces.index(x['space'])}, {x['origin']}) from "
                     f"{x['snap']!r} to {now!r}")

    def data_for(sp, name, rng):
        m = sp.model()
        mt = m.types[name]
        if mt.size is not None and rng.random() < 0.3:
            b = rng.randbytes(mt.size)
            try:
                v, end = m.read(mt, M.Source(b), 0)
                return b, v, end
            except (M.Invalid, M.Short):
                return None
        d = gen.gen_data(m, mt, rng, 0, limit=300)
        return None if d is None else (d[0], d[1], d[3])

    def parse(sp, name, rng, what):
        d = data_for(sp, name, rng)
        if d is None:
            if needs_fields(sp.model(), name):
                # the length of these depends on fields of a structure: not of any that was parsed before
                b = rng.choice([bytes(64), rng.randbytes(64)])
                T = sp.cs.resolve(name)
                try:
                    o = T.read(b)
                except Exception:  # noqa: BLE001
                    ctx.stat("probe:length_without_fields")
                else:
                    fail("parse", f"{what}: parsing {name} of object {spaces.index(sp)} by itself gave {real.plain(o, T)!r}, but its "
                         f"length depends on fields of a structure")
            return None
        T = sp.cs.resolve(name)
        way = rng.randrange(4)
        mt = sp.model().types[name]
        tail = b"" if common.has_eof(sp.model(), mt) else b"\xa5\x5a"
        try:
            if way == 0:
                o = T.read(d[0] + tail)
            elif way == 1:
                o = sp.cs.read(name, simio.SimFile(d[0] + tail))
            elif way == 2:
                o = getattr(sp.cs, name).read(simio.SimFile(d[0] + tail))
            else:
                o = T.reads(d[0] + tail)
        except Exception as e:  # noqa: BLE001
            fail("parse", f"{what}: parsing {d[0].hex()} as {name} of object {spaces.index(sp)} raised {e!r}, expected {d[1]!r}")
        got = real.plain(o, T)
        if got != d[1]:
            fail("parse", f"{what}: parsing {d[0].hex()} as {name} of object {spaces.index(sp)} gave {got!r}, expected {d[1]!r}")
        return o, T

    def default(sp, name, what):
        T = sp.cs.resolve(name)
        mt = sp.model().types[name]
        if not isinstance(mt, M.TStruct):
            return None
        o = T()
        got = norm(real.plain(o, T))
        want = sp.model().zero(mt)
        if got != want:
            fail("default", f"{what}: {name}() of object {spaces.index(sp)} is {got!r}, expected {want!r}")
        return o, T

    for k, op in enumerate(plan["ops"]):
        rng = random.Random(op["seed"])
        sp = spaces[op["c"] % len(spaces)]
        names = sp.names()
        name = names[op["t"] % len(names)]
        T = sp.cs.resolve(name)
        kind = op["op"]
        x = insts[op["i"] % len(insts)] if insts else None
        what = f"op {k} {kind} {name} on object {spaces.index(sp)}"
        skip = None
        sig = None
        live = lambda o, t, origin, sp=sp, name=name: insts.append(  # noqa: E731
            {"o": o, "T": t, "space": sp, "name": name, "origin": origin, "snap": real.plain(o, t), "dump": None})
        if kind == "default":
            r = default(sp, name, what)
            if r:
                live(*r, "default")
                if (sp, name, "default") in mutated_types:
                    ctx.stat("probe:default_mutated_then_default")
        elif kind == "parse":
            r = parse(sp, name, rng, what)
            if r and hasattr(r[1], "__fields__"):
                live(*r, "parse")
                if (sp, name, "parse") in mutated_types:
                    ctx.stat("probe:parsed_mutated_then_parsed")
        elif kind == "ctor":
            r = parse(sp, name, rng, what)
            if r and hasattr(r[1], "__fields__"):
                o, T = r
                fs = [f for f in T.__fields__ if f.name and not is_nan(real.plain(getattr(o, f._name), f.type, f.bits))]
                pick = [f for f in fs if rng.random() < 0.5]
                try:
                    n = T(**{f.name: getattr(o, f.name) for f in pick})
                    live(n, T, "ctor")
                except Exception:  # noqa: BLE001
                    pass
        elif kind in ("mutate", "interrupt") and x and (kind == "mutate" or rng.random() < 0.3):
            what = f"op {k} {kind} of instance {insts.index(x)} ({x['name']} {x['origin']})"
            pl = places(x["o"], x["T"])
            if pl:
                path, pk, holder, key, t, bits = rng.choice(pl)
                union = has_union(x["T"])
                before = x["snap"]
                inj = Interrupt(rng.randrange(0, 60)) if kind == "interrupt" else None
                try:
                    if pk == "list":
                        new = fresh_value(t.type, None, rng)
                        y = rng.random()
                        if y < 0.3 and new is not None:
                            holder.append(new)
                        elif y < 0.5:
                            holder.clear()
                        elif y < 0.7:
                            holder.reverse()
                        elif holder:
                            holder.pop(rng.randrange(len(holder)))
                    else:
                        new = fresh_value(t, bits, rng)
                        if new is None:
                            new = t() if hasattr(t, "__fields__") else 3
                        if pk == "element":
                            holder[key] = new
                        elif inj:
                            with inj:
                                setattr(holder, key, new)
                        else:
                            setattr(holder, key, new)
                    mutations += 1
                except KeyboardInterrupt:
                    ctx.stat("fault:interrupt")
                    skip = x
                except Exception:  # noqa: BLE001
                    pass  # rejected by a union
                if skip is None:
                    x["snap"] = snap(x)
                    x["dump"] = None
                    if not union:
                        want = replaced(before, path, at(x["snap"], path))
                        if want != x["snap"]:
                            fail("mutation", f"{what}: assigning {path} ({pk}) also changed other parts: {before!r} -> {x['snap']!r}")
                else:
                    insts.remove(x)
                trail.append(what + f" {pk} {path}")
                mutated_types.add((x["space"], x["name"], x["origin"]))
                ctx.stat("probe:array_element_mutated", pk in ("element", "list"))
                ctx.stat("probe:nested_default_mutated", pk == "nested" and x["origin"] == "default")
                sig = pk
        elif kind == "interrupt":
            inj = Interrupt(rng.randrange(0, 150))
            d = data_for(sp, name, rng)
            way = rng.choice(["parse", "default", "dump", "load", "getattr"])
            try:
                with inj:
                    if way == "parse" and d:
                        T.read(d[0])
                    elif way == "default":
                        T()
                    elif way == "dump" and x:
                        x["o"].dumps()
                    elif way == "load":
                        sp.cs.load(f"struct Zi{k} {{ uint8 a; uint16 b[a]; {name} c; }};", compiled=sp.compiled)
                    else:
                        repr(x and x["o"]), hash(T)
            except KeyboardInterrupt:
                ctx.stat("fault:interrupt")
            except Exception:  # noqa: BLE001
                pass
            sig = way
        elif kind == "dump" and x:
            what = f"op {k} dump of instance {insts.index(x)} ({x['name']} {x['origin']})"
            try:
                b = x["o"].dumps()
            except Exception as e:  # noqa: BLE001
                b = type(e).__name__
            key = (x["space"].endian, b)
            if x["dump"] is not None and x["dump"][0] == key[0]:
                ctx.stat("probe:dump_repeated")
                if x["dump"] != key:
                    fail("dump", f"{what}: dumping the unchanged instance gave {b!r}, earlier {x['dump'][1]!r}")
            x["dump"] = key
        elif kind == "cmp" and len(insts) > 1:
            y = insts[(op["i"] + 1) % len(insts)]
            for f in (lambda: x["o"] == y["o"], lambda: hash(x["o"]), lambda: bool(x["o"]), lambda: repr(x["o"]), lambda: len(x["o"])):
                try:
                    f()
                except Exception:  # noqa: BLE001
                    pass
            ctx.stat("probe:hash_eq_calls")
        elif kind == "endian":
            sp.endian = rng.choice("<>")
            sp.cs.endian = sp.endian
            ctx.stat("probe:endian_changed")
        elif kind == "load":
            # the same new name, defined differently per object
            if rng.random() < 0.35 and sp.cs.consts:
                nm, c = rng.choice(["LK", "LM"]), rng.choice(sorted(sp.cs.consts))
                v = rng.randrange(100)
                sp.cs.load(f'${nm} = {{"{c}": {v}}}\n')
                sp.lookups[nm] = {sp.cs.consts[c]: v}
                if sp.cs.lookups != sp.lookups:
                    fail("namespace", f"{what}: loading lookup {nm} = {sp.lookups[nm]} made the lookups {sp.cs.lookups}, expected {sp.lookups}")
                ctx.stat("probe:lookup")
            consts = [d["name"] for d in sp.prog["decls"] if d["k"] == "const"]
            if rng.random() < 0.35:
                # a constant is (re)defined: array lengths using it change, but only those of this object
                d = {"k": "const", "name": rng.choice([*consts, *consts, "K1", "K2", "K9"]), "text": str(rng.randrange(0, 6))}
                sp.cs.load(gen.text({"decls": [d]}))
                sp.extra.append(d)
                ctx.stat("probe:late_constant")
            nm = f"L{rng.randrange(3)}"
            if nm not in sp.names():
                t = [rng.choice(["uint8", "int16", "uint32", "char", "uint24"]) for _ in range(rng.randrange(1, 4))]
                d = {"k": "struct", "name": nm, "fields": [{"n": f"f{q}", "t": ["n", y] if rng.random() < 0.6 else ["arr", ["n", y], rng.randrange(1, 4)]}
                                                          for q, y in enumerate(t)]}
                sp.cs.load(gen.text({"decls": [d]}), compiled=rng.random() < 0.5, align=bool(sp.prog["align"]))
                sp.extra.append(d)
                ctx.stat("probe:late_load")
        elif kind == "newtype":
            nm = f"N{rng.randrange(3)}"
            if nm not in sp.names() and nm not in sp.model().types:
                base = rng.choice([x for x in names if isinstance(sp.model().types[x], M.TStruct)] + ["uint16", "wchar"])
                sp.cs.add_type(nm, base if rng.random() < 0.5 else sp.cs.resolve(base))
                sp.extra.append({"k": "typedef", "t": ["n", base], "names": [nm]})
                ctx.stat("probe:late_type")
        elif kind == "newcs" and len(spaces) < 6:
            open_space({"p": rng.randrange(8), "endian": rng.choice("<>"), "compiled": rng.random() < 0.5, "bare": rng.random() < 0.7}, what)
        elif kind == "badload":
            text = rng.choice([f"struct {name} {{ uint64 zz[7]; }};", "struct Q { uint8 a; nope b; };", f"typedef uint24 {name};",
                               f"struct Q {{ {name} a; uint8 a; }};", "struct R { uint8 a : 5; uint8 b : 5; };", "struct {"])
            try:
                sp.cs.load(text, compiled=sp.compiled)
            except Exception:  # noqa: BLE001
                ctx.stat("fault:failed_load")
        elif kind in ("cut", "device"):
            d = data_for(sp, name, rng)
            if d and d[0]:
                p = rng.randrange(len(d[0]))
                s = simio.SimFile(d[0][:p]) if kind == "cut" else simio.SimFile(d[0], bad=(p, rng.choice(["OSError", "Abort", "Interrupt"])))
                try:
                    T.read(s)
                except (Exception, KeyboardInterrupt):  # noqa: BLE001
                    ctx.stat("fault:truncated_parse" if kind == "cut" else "fault:device_error")
        elif kind == "sink" and x:
            s = simio.SimFile(b"", faults=[{"op": "write", "at": rng.randrange(0, 6), "kind": "raise", "exc": rng.choice(["OSError", "Interrupt"])}])
            try:
                x["T"].write(s, x["o"])
            except (Exception, KeyboardInterrupt):  # noqa: BLE001
                ctx.stat("fault:failing_sink", len(s.fired))
        elif kind == "array":
            # arrays of a type are new types of the same object: parse, mutate the list, parse again
            mt = sp.model().types[name]
            if mt.size:
                n = rng.randrange(0, 4)
                b = rng.randbytes(mt.size * n)
                at_ = M.TArray(mt, n)
                try:
                    want, _ = sp.model().read(at_, M.Source(b), 0)
                except (M.Invalid, M.Short):
                    want = None
                if want is not None and not (sp.prog["align"] and isinstance(mt, M.TStruct)):
                    A = T[n]
                    for _ in range(2):
                        try:
                            v = A.read(b)
                        except Exception as e:  # noqa: BLE001
                            fail("parse", f"{what}: parsing {b.hex()} as {name}[{n}] raised {e!r}")
                        got = real.plain(v, A)
                        if got != want:
                            fail("parse", f"{what}: parsing {b.hex()} as {name}[{n}] gave {got!r}, expected {want!r}")
                        if isinstance(v, list):
                            v.reverse()
                            v.append(v[0] if v else 1)
                            if hasattr(T, "__fields__") and v and T.__fields__[0].name:
                                try:
                                    setattr(v[0], T.__fields__[0].name, 1)
                                except Exception:  # noqa: BLE001
                                    pass
        elif kind == "drop" and x:
            insts.remove(x)
        if not trail or not trail[-1].startswith(f"op {k} "):
            trail.append(what)
        check_all(what, skip)
        for q, s in enumerate(spaces):
            if s is sp:
                s.refresh()
                continue
            now = namespace(s.cs)
            if now != s.state:
                d = [(f, sorted(n for n in {*now[f], *s.state[f]} if now[f].get(n) is not s.state[f].get(n))[:5]) if isinstance(now[f], dict)
                     else (f, now[f], s.state[f]) for f in now if now[f] != s.state[f]]
                fail("namespace", f"{what} changed object {q}: {d}")
        # probe: an arbitrary type of an arbitrary object still behaves as its definition says
        prng = random.Random(op["probe"] + 1000 * k)
        psp = spaces[op["probe"] % len(spaces)]
        pn = psp.names()
        pname = pn[(op["probe"] // 8) % len(pn)]
        w = f"after {what}, probing"
        default(psp, pname, w)
        parse(psp, pname, prng, w)
        compared += 2
        check_all(w)
        if any(pname in s.names() for s in spaces if s is not psp):
            ctx.stat("probe:same_name_other_object")
        ctx.state(prev, kind, sig, sp.compiled, psp is sp)
        ctx.log(k, kind, spaces.index(sp), name, len(insts), [hash_of(i["snap"]) for i in insts[-3:]])
        prev = kind
        if len(insts) > 8:
            del insts[rng.randrange(len(insts))]
    now = bare_names()
    if now != bare:
        fail("namespace", f"a new cstruct object without definitions is {now} after this history, was {bare} before")
    ctx.nontrivial = mutations >= 2 and len(spaces) > 1 and compared >= 10


def names_in(d):
    import re

    return set(re.findall(r"[A-Za-z_]\w*", repr(d)))


def hash_of(x):
    import zlib

    return zlib.crc32(repr(x).encode("utf-8", "backslashreplace"))


def norm(v):
    """A char bit-field that was never assigned holds the zero character instead of the integer 0."""
    if v == ("b!", "b'\\x00'"):
        return 0
    return tuple(norm(x) for x in v) if isinstance(v, tuple) else v


def shrink(plan):
    import copy

    from .. import shrinker

    for i in range(len(plan["progs"])):
        for p in shrinker.program({"prog": plan["progs"][i]}):
            q = copy.deepcopy(plan)
            q["progs"][i] = p["prog"]
            yield q
    for i in range(len(plan["cs"])):
        if len(plan["cs"]) > 1:
            q = copy.deepcopy(plan)
            del q["cs"][i]
            yield q
        for k, v in (("compiled", False), ("endian", "<")):
            if plan["cs"][i][k] != v:
                q = copy.deepcopy(plan)
                q["cs"][i][k] = v
                yield q
    for i, o in enumerate(plan["ops"]):
        for k in ("c", "i", "t", "probe"):
            if o[k]:
                q = copy.deepcopy(plan)
                q["ops"][i][k] = 0
                yield q
