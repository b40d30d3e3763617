"""C13: definition parsing ignores comments, spacing and order of unrelated definitions, over histories of load() calls.

One run = one definition program loaded canonically into one cstruct object and, into a second one, as a history of load() calls:
the declarations in another dependency-respecting order, split over several calls, with comments and whitespace at token
boundaries, interleaved with failing loads (broken text, unknown types, interrupted parses), re-declared and cyclic aliases.
Afterwards names, layouts and parsing behaviour of all types must be identical.
"""

from __future__ import annotations

import os
import random
import re
import sys
import tempfile

from .. import core, gen, real, simio
from .. import model as M
from . import common

RUNS = {"quick": 28000, "thorough": 500000}
RULE = ("one run = one random definition program, loaded canonically and as a history of 1-12 load()/add_type() calls with noise, "
        "reordering and failures in between; compared: names, layouts, alias identity, constants, values/sizes/positions of 1-3 "
        "inputs per type, dumped bytes; non-trivial = at least 3 noise insertions or a changed order, and at least one parsed input "
        "per run; distinct = event log digest")
STATE_MEASURE = "distinct (token before, noise kind, token after) boundaries and (history operation, outcome)"
REAL = ["all of dissect.cstruct"]
STUB = ["file object (simio.SimFile)", "asynchronous interruption of the parser delivered by sys.settrace"]
ASSUMPTIONS = ["no noise inside array brackets or on #define lines (the property excludes them)",
               "alias chains stay below the documented resolution limit of 10",
               "re-declared aliases target named (not array or pointer) types"]
PROBES = ["reordered", "several_loads", "comment_inserted", "line_comment", "newline_inserted", "crlf", "keyword_like_name",
          "alias_checked", "alias_redeclared_same", "cyclic_alias", "alias_chain", "loaded_from_file", "tagged_reference"]
FAULTS = ["broken_load", "unknown_type", "interrupted_load", "conflicting_alias", "conflicting_struct"]
LISTS = ("hist", "noise", "datas")

KEYNAMES = ["structs", "struct_", "union1", "typedef_", "enums", "flag", "enum_", "flags", "define", "flag_a", "structure", "unions",
            "typedefs", "_struct", "enumx", "_1", "EOF_", "sizeof_", "int_", "long_", "unsigned_", "_flag"]
COMMENTS = ["/**/", "/* x */", "/* a; } { */", "/* struct X { */", "/*\n*/", "/* line\n line ; */", "/* // */", "/* it's */",
            '/* "quoted" */', "/***/", "/* #define A 1 */", "/* a, b */", "/* é */", "/* * */", "/*\r\n}*/", "/*/ */", "/* ] [ */"]
LINES = ["// x", "// a; }", "//", "// it's", '// "', "// /* ", "// */", "// #define A 1", "/// struct X {", "// uint8 q;", "//\\"]
SPACES = [" ", "  ", "\t", "\n", "\n\n", "\r\n", " \n\t", "\n    ", "\f", "\v", "\r\n\r\n"]


def tokens(d):
    """Fine-grained tokens of a declaration, bracketed array bounds kept whole."""
    out = []
    for t in gen.decl_tokens(d):
        if t.startswith("#"):
            out.append(t)
            continue
        m = re.match(r"^(\**)([A-Za-z_]\w*)((?:\[[^\]]*\])+)?$", t)
        if m:
            out += list(m.group(1))
            out.append(m.group(2))
            out += re.findall(r"\[[^\]]*\]", m.group(3) or "")
        elif d["k"] in ("enum", "flag") and not re.match(r"^[{},:;=]$", t):
            # an enum member value
            out += re.findall(r"<<|>>|\w+|[^\w\s]", t)
        else:
            out.append(t)
    return out


def word(c):
    return c.isalnum() or c == "_"


def longnoise(rng):
    """Noise of an unusual length."""
    n = rng.choice([100, 250, 500, 520, 1000, 1030, 2100, 4100, 8200])
    text = rng.choice(["x", "struct X { uint8 a; };\n", "// \n", "* ", "'\n", "#define Q 1\n", "a b\tc\n", "{", "é "])
    x = rng.random()
    if x < 0.6:
        return " /*" + (text * (n // len(text) + 1)).rstrip("/") + rng.choice(["", " ", "\n"]) + "*/ "
    if x < 0.8:
        return " //" + text.replace("\n", " ") * (n // len(text) + 1) + ".\n"
    return rng.choice([" ", "\n", "\r\n", "\t", " \n"]) * (n // 2)


def render(toks, rng, density, used=None):
    """Text of the tokens with noise between them."""
    out = ""
    prev = ""
    for t in toks:
        if t.startswith("#define"):
            if out and out[-1] not in "\r\n":
                out += "\n"
            out += t
            prev = t
            continue
        sep = ""
        if out and word(out[-1]) and word(t[0]):
            sep = " "
        if rng.random() < density:
            x = rng.random()
            kind = "space"
            if x < 0.45:
                noise = rng.choice(SPACES)
            elif x < 0.8:
                noise = rng.choice(["", " ", "\n"]) + rng.choice(COMMENTS) + rng.choice(["", "", " ", "\n"])
                kind = "comment"
            elif x < 0.95:
                noise = " " + rng.choice(LINES) + rng.choice(["\n", "\n", "\r\n"])
                kind = "line"
            else:
                noise = rng.choice(COMMENTS) + rng.choice(SPACES) + rng.choice(LINES) + "\n" + rng.choice(COMMENTS)
                kind = "mixed"
            if rng.random() < 0.006:
                noise, kind = longnoise(rng), "long"
            sep = noise
            if used is not None:
                used.append((cls(prev), kind, cls(t)))
        if out.endswith("/") and sep.startswith("/"):
            sep = " " + sep  # a division, not a comment
        out += sep + t
        prev = t
    return out


def cls(t):
    if not t:
        return "start"
    if t in ("struct", "union", "typedef", "enum", "flag", "{", "}", ";", ",", ":", "=", "*"):
        return t
    return "[" if t[0] == "[" else "#" if t[0] == "#" else "num" if t[0].isdigit() else "id" if word(t[0]) else "op"


def deps(prog):
    """For each declaration: indexes of the declarations it refers to."""
    names = {}
    for i, d in enumerate(prog["decls"]):
        for n in [d.get("name"), *d.get("names", []), *d.get("aliases", [])]:
            if n:
                names[n] = i
    out = []
    for i, d in enumerate(prog["decls"]):
        words = set(re.findall(r"[A-Za-z_]\w*", " ".join(gen.decl_tokens(d))))
        out.append(sorted({names[w] for w in words if w in names} - {i}))
    return out


def shuffled(prog, rng):
    dd = deps(prog)
    left = list(range(len(dd)))
    out = []
    while left:
        ready = [i for i in left if all(j in out or j > i for j in dd[i])]
        i = rng.choice(ready)
        out.append(i)
        left.remove(i)
    return out


def generate(rng, tier):
    kw = rng.random() < 0.4
    opt = {}
    if kw:
        opt["names"] = (rng.sample(KEYNAMES, 14) + gen.NAMES[:16])
        if rng.random() < 0.6:
            opt["prefix"] = {"E": rng.choice(["enum", "E", "flag_"]), "Fl": rng.choice(["flag", "Fl", "union_"]),
                             "S": rng.choice(["struct_", "S", "typedef", "structure"]), "U": rng.choice(["union", "U"]),
                             "t": rng.choice(["typedef_", "t", "unsigned_"]), "A": rng.choice(["A", "struct__"]),
                             "K": rng.choice(["K", "define", "enum_"]), "M": rng.choice(["M", "enum__", "_"])}
    g, prog, m = common.program(rng, nocompile=0.05, maxstruct=4, density=rng.choice([0.4, 0.6, 0.8]), topunion=0.1, enumsizeof=True, **opt)
    if prog is None:
        return None
    if rng.random() < 0.3:
        # an anonymous enum contributes constants
        prog["decls"].append({"k": rng.choice(["enum", "flag"]), "name": None, "base": rng.choice([None, "uint8"]),
                              "members": [[g.fresh("ZC"), None], [g.fresh("ZC"), rng.choice(["4", "1 << 3", "0x10"])]]})
    datas = []
    cand = [d["name"] for d in prog["decls"] if d["k"] in ("struct", "union", "enum", "flag", "typedef") and d.get("name")]
    cand += [n for d in prog["decls"] if d["k"] == "typedef" for n in d["names"]]
    for s in rng.sample(cand, min(len(cand), 4)):
        mt = m.types[s]
        d = gen.gen_data(m, mt, rng, 0, limit=400)
        if d is not None:
            datas.append({"s": s, "data": (d[0] + (b"" if common.has_eof(m, mt) else b"\x5a")).hex()})
    if not datas:
        return None
    order = shuffled(prog, rng) if rng.random() < 0.7 else list(range(len(prog["decls"])))
    # the history: chunks of declarations in that order, with disturbances in between
    hist = []
    i = 0
    while i < len(order):
        if rng.random() < 0.45:
            hist.append(disturb(rng))
        n = rng.choice([1, 1, 2, 3, 99])
        hist.append({"op": "load", "d": order[i:i + n], "seed": rng.getrandbits(32), "density": rng.choice([0, 0.1, 0.3, 0.6, 1.0]),
                     "file": rng.random() < 0.05})
        i += n
    for _ in range(rng.choice([0, 1, 2, 3])):
        hist.append(disturb(rng))
    return {"prog": prog, "compiled": rng.random() < 0.5, "hist": hist, "datas": datas}


def loadfile(cs, text, compiled, align):
    fd, path = tempfile.mkstemp(prefix="dst-c13-")
    try:
        with os.fdopen(fd, "wb") as fh:
            fh.write(text.encode("ascii", "replace"))
        cs.loadfile(path, compiled=compiled, align=align)
    finally:
        os.unlink(path)


def disturb(rng):
    k = rng.choice(["broken", "broken", "unknown", "interrupt", "realias", "conflict", "restruct", "cycle", "chain", "synonym"])
    op = {"op": k, "seed": rng.getrandbits(32)}
    if k in ("broken", "interrupt"):
        op["at"] = rng.randrange(0, 400 if k == "interrupt" else 60)
        op["how"] = rng.choice(["cut", "delete", "dup", "unknown"])
    return op


class ParserInterrupt:
    """Asynchronous interruption at the n-th line event below load()."""

    def __init__(self, at):
        self.left = at
        self.fired = False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)

    def __exit__(self, *a):
        sys.settrace(self.old)

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(core.LIBDIR) else None

    def local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.left -= 1
            if self.left < 0:
                self.fired = True
                raise KeyboardInterrupt("injected interruption")
        return self.local


def foreign(seed, idx):
    """A program whose names never collide with the one under test."""
    rng = random.Random(seed)
    pre = {k: f"Z{idx}{k}" for k in ("E", "Fl", "S", "U", "t", "A", "K", "M")}
    for _ in range(4):
        g, prog, m = common.program(rng, maxstruct=3, prefix=pre, density=0.6)
        if prog is not None:
            return prog
    raise core.Skip("foreign program")


def names_sig(t, cs_types):
    """Names of a type and of everything below it, with generated names of anonymous structures removed."""
    from dissect.cstruct import types as ty

    def clean(n):
        return re.sub(r"__anonymous_\d+__", "<anon>", n)

    def rec(t, seen):
        if id(t) in seen:
            return clean(t.__name__)
        seen = seen | {id(t)}
        if issubclass(t, ty.Structure):
            return (clean(t.__name__), tuple((f.name, rec(f.type, seen)) for f in t.__fields__))
        if issubclass(t, (ty.BaseArray, ty.Pointer)):
            return (clean(t.__name__), rec(t.type, seen))
        if issubclass(t, (ty.Enum, ty.Flag)):
            return (clean(t.__name__), rec(t.type, seen), tuple((k, int(v.value)) for k, v in t.__members__.items()))
        return (t.__name__, t.size)

    return rec(t, frozenset())


def observe(cs, name, data):
    """Everything parsing and dumping a value of the named type lets a user see."""
    T = cs.resolve(name)
    s = simio.SimFile(data)
    try:
        v = T.read(s)
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__)
    out = [real.plain(v, T), s.pos, real.sizes(v, T)]
    try:
        out.append(v.dumps() if hasattr(v, "dumps") else T.dumps(v))
    except Exception as e:  # noqa: BLE001
        out.append(type(e).__name__)
    try:
        out.append((bytes(T().dumps()).hex(), repr(real.plain(T(), T))) if hasattr(T, "__fields__") else None)
    except Exception as e:  # noqa: BLE001
        out.append(type(e).__name__)
    return out


def execute(plan, ctx):
    from dissect.cstruct import cstruct
    from dissect.cstruct.exceptions import ResolveError

    prog = plan["prog"]
    common.make_model(prog)
    al = bool(prog["align"])
    n = len(prog["decls"])
    canon = gen.text(prog)
    ref = common.try_build(prog, plan["compiled"])
    cs = cstruct(endian=prog["endian"], pointer=prog["pointer"])
    dd = deps(prog)
    loaded = []
    history = []
    noise = 0

    def load(text, c=plan["compiled"]):
        cs.load(text, compiled=c, align=al)

    def names_of(i):
        d = prog["decls"][i]
        return [x for x in [d.get("name") if d["k"] != "const" else None, *d.get("names", []), *d.get("aliases", [])] if x]

    def have():
        return [x for i in loaded for x in names_of(i)]

    def frozen():
        return {k: (id(cs.resolve(k)), real.layout(cs.resolve(k))) for k in have()}, dict(cs.consts)

    def unchanged(before, what):
        after = frozen()
        for k in before[0]:
            if before[0][k] != after[0][k]:
                ctx.fail("disturbed", f"{what} changed the type {k} that was loaded earlier\nhistory:\n" + "\n".join(history))
        for k, v in before[1].items():
            ctx.check(k in cs.consts and cs.consts[k] == v, "disturbed", lambda: f"{what} changed constant {k}\n" + "\n".join(history))

    hist = list(plan["hist"])
    missing = [i for i in range(n) if not any(i in h.get("d", ()) for h in hist)]
    if missing:
        hist.append({"op": "load", "d": missing, "seed": 0, "density": 0})
    for k, h in enumerate(hist):
        op = h["op"]
        rng = random.Random(h["seed"])
        before = frozen()
        if op == "load":
            ds = []
            for i in h["d"]:
                # dependencies dropped by minimisation come first
                for j in [*dd[i], i]:
                    if j not in loaded and j not in ds and (j <= i or j in h["d"]) and i < n:
                        ds.append(j)
            used = []
            toks = [t for i in ds for t in tokens(prog["decls"][i])]
            text = render(toks, rng, h["density"], used)
            if h["density"] and rng.random() < 0.5:
                text = rng.choice(COMMENTS + SPACES) + text
            if h["density"] and rng.random() < 0.5 and not toks[-1:][0].startswith("#define"):
                text += rng.choice(COMMENTS + SPACES + LINES)
            history.append(text)
            try:
                if h.get("file"):
                    loadfile(cs, text, plan["compiled"], al)
                    ctx.stat("probe:loaded_from_file")
                else:
                    load(text)
            except Exception as e:  # noqa: BLE001
                ctx.fail("rejected", f"{text!r} was rejected: {e!r}, while the canonical text is accepted; history:\n" +
                         "\n".join(map(repr, history)) + f"\ncanonical:\n{canon}")
            if ds != sorted(ds) or (loaded and ds and min(ds) < max(loaded)):
                ctx.stat("probe:reordered")
                noise += 3
            if loaded and ds:
                ctx.stat("probe:several_loads")
            loaded += ds
            noise += len(used)
            for u in used:
                ctx.state(u)
                ctx.stat("probe:comment_inserted", u[1] in ("comment", "mixed"))
                ctx.stat("probe:line_comment", u[1] in ("line", "mixed"))
            ctx.stat("probe:newline_inserted", text.count("\n"))
            ctx.stat("probe:crlf", "\r\n" in text)
            unchanged(before, "loading further definitions")
            ctx.log(k, op, ds, text)
        elif op in ("broken", "interrupt"):
            fp = foreign(h["seed"], k)
            toks = [t for d in fp["decls"] for t in tokens(d)]
            if op == "broken":
                at = h["at"] % len(toks)
                if h["how"] == "cut":
                    toks = toks[:at]
                elif h["how"] == "delete":
                    if toks[at].startswith("#"):
                        at = len(toks) - 1
                    del toks[at]
                elif h["how"] == "dup":
                    if not toks[at].startswith("#"):
                        toks.insert(at, toks[at])
                else:
                    ids = [i for i, t in enumerate(toks) if t in M.BUILTIN]
                    if ids:
                        toks[ids[at % len(ids)]] = "Zunknown_t"
                # a broken text must not name a type of the program under test by accident
                if set(toks) & set(have()):
                    continue
            text = render(toks, rng, 0.1)
            history.append("# " + repr(text))
            try:
                if op == "interrupt":
                    inj = ParserInterrupt(h["at"])
                    with inj:
                        load(text)
                else:
                    load(text)
                res = "accepted"
            except KeyboardInterrupt:
                res = "interrupted"
                ctx.stat("fault:interrupted_load")
            except Exception as e:  # noqa: BLE001
                res = type(e).__name__
                ctx.stat("fault:broken_load")
            unchanged(before, f"a {op} load ({res})")
            for x in prog_names(fp):
                # whatever the failing text left behind must be resolvable or unknown, never half-built
                check_entry(cs, ctx, x, ResolveError, history, res)
            ctx.log(k, op, h.get("how"), res)
            ctx.state(op, h.get("how"), res)
        elif op == "unknown":
            bad = rng.choice(["Zfoo", "uint7", "UINT8_", "unsigned Zx", "uint8 uint8x", "struct_t_", "Uint8", "long long long"])
            f, res = rng.choice([(f"struct ZX{k} {{ uint8 a; {bad} b; }};", [f"ZX{k}"]), (f"typedef {bad} ZY{k};", [f"ZY{k}"]),
                                 (f"struct ZX{k} {{ {bad} *p; }};", [f"ZX{k}"]), (f"struct ZX{k} {{ {bad} q[2]; }};", [f"ZX{k}"]),
                                 (f"union ZX{k} {{ struct {{ {bad} q; }} r; uint8 z; }};", [f"ZX{k}"]),
                                 (f"enum ZE{k} : {bad} {{ Z1 }};", [f"ZE{k}"]),
                                 (f"typedef struct ZX{k} {{ {bad} q; }} ZW{k};", [f"ZX{k}", f"ZW{k}"])])
            try:
                load(f)
                ctx.fail("unknown-accepted", f"{f!r} refers to an unknown type but was accepted\n" + "\n".join(history))
            except ResolveError:
                ctx.stat("fault:unknown_type")
            except core.Violation:
                raise
            except Exception as e:  # noqa: BLE001
                ctx.fail("unknown-error", f"{f!r} refers to an unknown type but raised {e!r} instead of a resolve error")
            for x in res:
                try:
                    cs.resolve(x)
                    ctx.fail("half-built", f"{x} is registered although {f!r} was rejected")
                except ResolveError:
                    pass
            unchanged(before, "a definition referring to an unknown type")
            ctx.log(k, op, f)
            ctx.state(op, f.split()[0], bad)
        elif op in ("realias", "conflict"):
            al_names = [x for x in have() if type(ref.typedefs[x]) is not str and not is_derived(ref.resolve(x))]
            base = ["uint8", "int", "unsigned long long", "DWORD", "char"]
            if op == "realias":
                x = rng.choice(al_names) if al_names and rng.random() < 0.7 else "WORD"
                same = [y for y in [*al_names, *M.SYNONYMS["uint16"], "uint16"] if cs.resolve(y) is cs.resolve(x)]
                tgt = rng.choice(same)
                if cs.resolve(x).__name__ == "" or " " in x:
                    continue
                try:
                    load(f"typedef {tgt} {x};")
                    if rng.random() < 0.5:
                        cs.add_type(x, tgt)
                except Exception as e:  # noqa: BLE001
                    ctx.fail("realias", f"re-declaring {x} as {tgt} (the same type) raised {e!r}\n" + "\n".join(history))
                ctx.stat("probe:alias_redeclared_same")
            else:
                x = rng.choice([*al_names, "WORD", "uint8", "int32_t"])
                other = [y for y in [*al_names, *base] if cs.resolve(y) is not cs.resolve(x)]
                tgt = rng.choice(other)
                way = rng.randrange(3)
                try:
                    if way == 0:
                        load(f"typedef {tgt} {x};")
                    elif way == 1:
                        cs.add_type(x, tgt)
                    else:
                        cs.add_type(x, cs.resolve(tgt))
                    ctx.fail("conflict-accepted", f"re-declaring {x} as {tgt} (a different type) was accepted\n" + "\n".join(history))
                except (ValueError, ResolveError):
                    ctx.stat("fault:conflicting_alias")
            unchanged(before, f"{op} of {x} as {tgt}")
            ctx.log(k, op, x, tgt)
            ctx.state(op)
        elif op == "restruct":
            hv = [x for x in have() if re.match(r"^\w+$", x)]
            if not hv:
                continue
            x = rng.choice(hv)
            f = rng.choice([f"struct {x} {{ uint8 zz; uint16 yy; }};", f"union {x} {{ uint64 zz; }};", f"typedef struct {{ uint8 zz; }} {x};",
                            f"struct {{ uint24 zz; }} {x};", f"enum {x} {{ ZZ{k} }};", f"typedef struct ZQ{k} {{ uint8 a; }} {x};"])
            try:
                load(f)
                ctx.fail("conflict-accepted", f"re-declaring {x} as a different type was accepted: {f}\n" + "\n".join(history))
            except (ValueError, ResolveError):
                ctx.stat("fault:conflicting_struct")
            unchanged(before, f"rejected re-declaration {f!r}")
            ctx.log(k, op, f)
            ctx.state(op, f.split()[0])
        elif op == "cycle":
            m = rng.choice([1, 2, 3, 5])
            ring = [f"Zc{k}_{q}" for q in range(m)]
            ok = True
            for q in range(m):
                try:
                    cs.add_type(ring[q], ring[(q + 1) % m])
                except (ValueError, ResolveError):
                    ok = False
            for q in ring if ok else ():
                for way in (lambda q=q: cs.resolve(q), lambda q=q: load(f"struct ZS{k}{q} {{ {q} a; }};"),
                            lambda q=q: load(f"typedef {q} ZT{k}{q};"), lambda q=q: getattr(cs, q)):
                    try:
                        v = way()
                        ctx.fail("cycle", f"the cyclic alias {q} resolved to {v!r}")
                    except ResolveError:
                        ctx.stat("probe:cyclic_alias")
                    except core.Violation:
                        raise
                    except Exception as e:  # noqa: BLE001
                        ctx.fail("cycle", f"resolving the cyclic alias {q} raised {e!r} instead of a resolve error")
            unchanged(before, "a cyclic alias")
            ctx.log(k, op, m)
        elif op == "chain":
            base = rng.choice([*have(), "uint8", "unsigned int"])
            m = rng.randrange(1, 6)
            prev = base
            for q in range(m):
                nm = f"Zh{k}_{q}"
                try:
                    if rng.random() < 0.5:
                        cs.add_type(nm, prev)
                    else:
                        load(f"typedef {prev} {nm};")
                except Exception as e:  # noqa: BLE001
                    ctx.fail("chain", f"declaring alias {nm} of {prev} raised {e!r}")
                prev = nm
                ctx.check(cs.resolve(nm) is cs.resolve(base), "alias", lambda nm=nm: f"alias {nm} of {base} is not the same type")
            ctx.stat("probe:alias_chain")
            unchanged(before, "an alias chain")
            ctx.log(k, op, m)
        elif op == "synonym":
            b = rng.choice(sorted(M.SYNONYMS))
            for y in M.SYNONYMS[b]:
                ctx.check(cs.resolve(y) is cs.resolve(b), "alias", lambda y=y: f"built-in {y} is not the same type as {b}")
            ctx.log(k, op, b)

    # --- final comparison
    for i, d in enumerate(prog["decls"]):
        nm = names_of(i)
        if d["k"] == "const":
            a, b = ref.consts.get(d["name"], "<missing>"), cs.consts.get(d["name"], "<missing>")
            ctx.check(a == b, "const", lambda: f"constant {d['name']} is {b!r}, canonically {a!r}\n" + "\n".join(history))
        if d["k"] in ("enum", "flag") and not d["name"]:
            for mname, _ in d["members"]:
                a, b = ref.consts.get(mname), cs.consts.get(mname, "<missing>")
                ctx.check(int(a.value) == getattr(b, "value", b), "const", lambda: f"constant {mname} is {b!r}, canonically {a!r}\n" + "\n".join(history))
        for x in nm:
            try:
                t = cs.resolve(x)
            except Exception as e:  # noqa: BLE001
                ctx.fail("missing", f"{x} does not resolve ({e!r}); history:\n" + "\n".join(history) + f"\ncanonical:\n{canon}")
            r = ref.resolve(x)
            ctx.check(cs.resolve(nm[0]) is t and getattr(cs, x) is t or d["k"] == "const", "alias",
                      lambda x=x: f"{x} and {nm[0]} are different types\n" + "\n".join(history))
            a, b = names_sig(r, None), names_sig(t, None)
            ctx.check(a == b, "names", lambda x=x, a=a, b=b: f"names below {x} are\n{b}\ncanonically\n{a}\n" + "\n".join(history))
            a, b = real.layout(r), real.layout(t)
            ctx.check(a == b, "layout", lambda x=x, a=a, b=b: f"layout of {x} is\n{b}\ncanonically\n{a}\n" + "\n".join(history))
            ctx.stat("probe:alias_checked", len(nm) > 1)
        if d["k"] == "typedef" and d["t"][0] == "n":
            ctx.check(cs.resolve(nm[0]) is cs.resolve(d["t"][1]), "alias", lambda: f"{nm[0]} is not the same type as {d['t'][1]}")
            ctx.stat("probe:alias_checked")
    for i in range(n):
        d = prog["decls"][i]
        ctx.stat("probe:tagged_reference", any(f.get("tag") for f in d.get("fields", ())))
        if any(x in KEYNAMES for x in [f.get("n") for f in d.get("fields", ())]):
            ctx.stat("probe:keyword_like_name")
    parsed = 0
    for d in plan["datas"]:
        if d["s"] not in [x for i in range(n) for x in names_of(i)]:
            continue
        data = bytes.fromhex(d["data"])
        for cut in (data, data[:len(data) // 2], bytes(len(data))):
            a, b = observe(ref, d["s"], cut), observe(cs, d["s"], cut)
            if a != b:
                ctx.fail("parse", f"{d['s']} parses {cut.hex()} as\n{b}\ncanonically\n{a}\nhistory:\n" + "\n".join(history) + f"\ncanonical:\n{canon}")
            parsed += a[0] != "raised"
            ctx.log("parse", d["s"], a[0] == "raised")
    ctx.nontrivial = parsed > 0 and noise >= 3


def is_derived(t):
    from dissect.cstruct import types as ty

    return issubclass(t, (ty.BaseArray, ty.Pointer))


def prog_names(prog):
    return [x for d in prog["decls"] if d["k"] != "const" for x in [d.get("name"), *d.get("names", []), *d.get("aliases", [])] if x]


def check_entry(cs, ctx, name, err, history, res):
    """A name of a load that failed is unknown or a complete type."""
    try:
        t = cs.resolve(name)
    except err:
        return
    except Exception as e:  # noqa: BLE001
        ctx.fail("half-built", f"after a failed load ({res}), resolving {name} raised {e!r}\n" + "\n".join(history))
    if hasattr(t, "__fields__") and not t.__fields__ and res not in ("interrupted", "accepted") and "{}" not in re.sub(r"\s|/\*.*?\*/", "", history[-1]):
        ctx.fail("half-built", f"after a failed load ({res}), {name} is registered without fields\n" + "\n".join(history))


def shrink(plan):
    import copy

    for i, h in enumerate(plan["hist"]):
        if h["op"] == "load":
            if h["density"]:
                for dens in (0, 0.05, h["density"] / 2):
                    if dens < h["density"]:
                        p = copy.deepcopy(plan)
                        p["hist"][i]["density"] = dens
                        yield p
                for s in range(8):
                    if h["seed"] != s:
                        p = copy.deepcopy(plan)
                        p["hist"][i]["seed"] = s
                        p["hist"][i]["density"] = 0.08
                        yield p
            if h["d"] != sorted(h["d"]):
                p = copy.deepcopy(plan)
                p["hist"][i]["d"] = sorted(h["d"])
                yield p
