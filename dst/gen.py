"""Seeded generator of definition programs (JSON), their C text, and valid input bytes."""

from __future__ import annotations

import random
import re

from . import model as M

INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
ODD = ["int24", "uint24", "int48", "uint48", "int128", "uint128"]
FLOATS = ["float16", "float", "double"]
NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "x", "y", "z", "n", "len", "count", "flags_", "magic", "data", "off",
         "hdr", "value", "id", "type_", "name", "body", "lo", "hi", "w0", "w1", "q", "k", "size", "u", "p0", "_pad"]
FEATS = ["odd", "float", "char", "wchar", "leb", "enum", "flag", "bits", "farr", "exprarr", "nullarr", "eof", "nested",
         "inline", "anon", "union", "ptr", "const", "typedef", "multi", "synonym", "void", "selfref", "ctxarr"]
COUNTS = ["n", "len", "count", "size", "lo", "hi", "x", "k"]
# lengths around the thresholds an implementation might have (chunk sizes, repeat counts, ...)
BIGN = [100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095,
        4096, 4097, 5000]


BIGS = ["fields", "fields", "array", "string", "deep"]


class Gen:
    def __init__(self, rng: random.Random, **opt):
        self.r = rng
        self.opt = opt
        self.align = opt["align"] if "align" in opt else rng.random() < 0.5
        p = opt.get("density", 0.55)
        on = set(opt.get("need", ()))
        off = set(opt.get("off", ()))
        self.feats = {f for f in FEATS if (f in on or rng.random() < p) and f not in off}
        self.decls = []
        self.structs = []  # (name, model type, fixed)
        self.enums = []
        self.typedefs = []
        self.ctxarrs = []  # (typedef of an array, name of the field of the using structure its length depends on)
        self.anon = 0
        self.consts = []
        self.uid = 0
        # rarely, something is unusually large: the number of fields, arrays and strings, the depth of nesting
        self.big = rng.choice(opt.get("bigs", BIGS)) if rng.random() < opt.get("big", 0) else None
        self.prog = {
            "endian": opt.get("endian") or rng.choice(["<", "<", ">", ">", "!"] if opt.get("net", True) else ["<", ">"]),
            "pointer": opt.get("pointer") or rng.choice(["uint64", "uint32", "uint16", "uint8"] + (["uint24", "uint48", "uint128"] if "odd" in self.feats else [])),
            "align": self.align,
            "decls": self.decls,
        }
        self.many = False
        if self.big:
            self.prog["big"] = self.big

    def has(self, f):
        return f in self.feats or (f in ("inline", "nested") and self.big == "deep" and f not in self.opt.get("off", ()))

    def fresh(self, prefix):
        self.uid += 1
        return f"{self.opt.get('prefix', {}).get(prefix, prefix)}{self.uid}"

    # ------------------------------------------------------------ program
    def program(self):
        r = self.r
        if self.has("const"):
            for _ in range(r.randrange(1, 3)):
                n = self.fresh("K")
                self.decls.append({"k": "const", "name": n, "text": self.const_text()})
                self.consts.append(n)
        if self.has("enum") or self.has("flag"):
            for _ in range(r.randrange(1, 3)):
                self.enum()
        if self.has("typedef"):
            for _ in range(r.randrange(1, 3)):
                n = self.fresh("t")
                t = self.scalar() if r.random() < 0.7 else ["arr", self.scalar(), r.randrange(0, 4)]
                self.decls.append({"k": "typedef", "t": t, "names": [n]})
                self.typedefs.append(n)
        if self.has("ctxarr") and self.has("typedef"):
            cand = [x for x in COUNTS if x in self.opt.get("names", NAMES)]
            if cand:
                c = r.choice(cand)
                n = self.fresh("t")
                t = ["arr", self.scalar(), ["expr", self.count_expr([c])]]
                self.decls.append({"k": "typedef", "t": t, "names": [n]})
                self.ctxarrs.append((n, c))
        nstruct = 1 + (r.randrange(0, 10 if self.big == "deep" else self.opt.get("maxstruct", 3)) if self.has("nested") or self.has("union") else 0)
        for i in range(nstruct):
            last = i == nstruct - 1
            union = self.has("union") and r.random() < (0.35 if not last else self.opt.get("topunion", 0.2))
            self.top(union, last)
        self.prog["top"] = self.structs[-1][0]
        return self.prog

    def model(self):
        return M.Model(self.prog)

    def const_text(self):
        r = self.r
        v = r.randrange(0, 6)
        return r.choice([str(v), hex(v), f"({v} + 1)", f"{v} * 2", f"1 << {v % 3}", f"0b{v:b}", f"{v}u"] +
                        ([f"{self.consts[0]} + 1"] if self.consts else []))

    def enum(self):
        r = self.r
        kind = r.choice([k for k in ("enum", "flag") if self.has(k)])
        base = r.choice([None, "uint8", "uint16", "uint32", "uint64"] + (["int8", "int16"] if kind == "enum" else []) +
                        (["uint24"] if self.has("odd") and self.opt.get("oddenum", True) else []) +
                        (["uleb128"] if self.has("leb") and self.opt.get("lebenum", False) else []))
        n = self.fresh("E" if kind == "enum" else "Fl")
        members = []
        lim = 100
        dup = r.random() < self.opt.get("enumdup", 0)
        if dup and r.random() < 0.7:
            lim = 3
        for _ in range(r.randrange(1, 5)):
            m = self.fresh("M")
            if r.random() < 0.5:
                members.append([m, None])
            elif members and r.random() < 0.4:
                members.append([m, r.choice([f"{members[-1][0]} + 2", f"{members[0][0]} | 4", f"({members[-1][0]} & 3) + 8"])])
            else:
                v = r.randrange(0, lim) if kind == "enum" else 1 << r.randrange(0, 5)
                members.append([m, r.choice([str(v), hex(v)])])
                if self.opt.get("enumsizeof") and r.random() < 0.4:
                    ty = r.choice(["unsigned int", "unsigned long", "uint16", "unsigned char", "unsigned long long"])
                    members[-1][1] = r.choice([f"sizeof({ty})", f"sizeof ({ty}) << 1", f"(sizeof({ty}) + 8)", f"16 + sizeof({ty}) / 1"])
            # duplicate values are C12's business (and not distinct members for flags)
            vals = list(M.Model({"decls": [d for d in self.decls if d["k"] == "const"] + [
                {"k": kind, "name": n, "base": None, "members": members}]}).types[n].members.values())
            if (vals[-1] in vals[:-1] and not dup) or not 0 <= vals[-1] < 128:
                members.pop()
        if not members:
            members.append([m, None])
        self.decls.append({"k": kind, "name": n, "base": base, "members": members})
        self.enums.append(n)

    def top(self, union, last):
        r = self.r
        name = self.fresh("S" if not union else "U")
        eof = last and not union and self.has("eof") and r.random() < 0.4
        fields = self.fields(union, depth=0, last_top=last, eof=eof)
        d = {"k": "union" if union else "struct", "name": name, "fields": fields}
        style = r.random()
        if style < 0.15 and self.has("typedef"):
            d["style"] = "typedef"
            d["aliases"] = [self.fresh("A") for _ in range(r.randrange(0, 3))] or [self.fresh("A")]
        elif style < 0.3 and self.has("typedef"):
            d["style"] = "typedef_anon"
            d["aliases"] = [self.fresh("A") for _ in range(r.randrange(0, 2))]
        elif style < 0.4:
            d["style"] = "trailing"
            d["aliases"] = [self.fresh("A")]
        elif self.has("selfref") and self.has("ptr") and not union and not eof and r.random() < 0.5:
            d["selfref"] = True
            names = {f["n"] for f in fields}
            nn = next(x for x in ("next", "link", "nxt2") if x not in names)
            pos = r.randrange(0, len(fields) + 1)
            if not (pos and pos < len(fields) and fields[pos - 1].get("b")):
                fields.insert(pos, {"n": nn, "t": ["ptr", ["n", name]]})
            else:
                fields.append({"n": nn, "t": ["ptr", ["n", name]]})
        if r.random() < self.opt.get("nocompile", 0):
            d["nocompile"] = True
        if not union and not d.get("selfref") and r.random() < self.opt.get("explicit", 0):
            self.offsets(d)
        self.decls.append(d)
        self.structs.append((name, union))

    def offsets(self, d):
        """Give some fields an explicit offset (such a structure is built from Field objects)."""
        r = self.r
        overlap = self.opt.get("overlap", False) and r.random() < 0.3
        if overlap:
            self.prog["overlap"] = True
        for i, f in enumerate(d["fields"]):
            if r.random() < 0.6 or (f["t"][0] == "arr" and f["t"][2] == "EOF"):
                continue
            mf = M.Model({**self.prog, "decls": self.decls}).struct({"k": "struct", "fields": d["fields"][:i + 1]}).fields[i]
            off = mf.offset
            if off is None:
                break
            if f.get("b") and not mf.first:
                # moved out of the unit of the previous bit-field
                if r.random() < 0.5:
                    f["off"] = off + M.storage(mf.type).size + r.choice([1, 2, 4, 7, 8])
                continue
            if overlap and r.random() < 0.5:
                f["off"] = max(0, off - r.choice([1, 2, 3, 4, 8]))
            else:
                f["off"] = off + r.choice([0, 1, 2, 4, 7, 16])

    def fixed(self, t):
        try:
            return self._mt(t).size is not None
        except Exception:  # noqa: BLE001
            return False

    def _mt(self, t):
        m = M.Model({**self.prog, "decls": self.decls})
        return m.type(t)

    def fields(self, union, depth, last_top=False, eof=False, allow_dynamic=True):
        r = self.r
        out = []
        names = self.opt.get("names", NAMES)[:]
        many = self.big == "fields" and depth == 0 and not self.many and r.random() < (0.8 if last_top else 0.35)
        if many:
            self.many = True
            names += [f"m{i}_" for i in range(60)]
        r.shuffle(names)
        used = []
        counts = []  # usable in expressions
        if self.ctxarrs and not self.anon and not union and r.random() < 0.5:
            c = r.choice(self.ctxarrs)[1]
            if c in names:
                names.remove(c)
                out.append({"n": c, "t": ["n", self.name(r.choice(["uint8", "uint8", "uint16", "int32", "uint64"]))]})
                counts.append(c)
        late = None
        if self.ctxarrs and not self.anon and not union and self.has("ptr") and r.random() < 0.12:
            # a pointer to an array whose length is a field behind the pointer
            late = r.choice(self.ctxarrs)
            if late[1] in names:
                names.remove(late[1])
            else:
                late = None
        nf = r.randrange(12, 70) if many else r.randrange(1, max(2, self.opt.get("maxfields", 7) - depth))
        i = 0
        bitunit = None
        static = r.choice([0, 10, 16, 24, 32, 64]) if many else 0  # number of fields of a fixed size in front
        while i < nf:
            i += 1
            if len(names) < 6:
                break
            nm = names.pop()
            if self.has("bits") and not union and r.random() < 0.3:
                # run of bit fields
                base = r.choice(INTS[:6] * 2 + INTS + (["char"] if self.opt.get("charbits", True) else []))
                enums = [e for e in self.enums if self._mt(["n", e]).size]
                if r.random() < 0.2 and enums:
                    base = r.choice(enums)
                if r.random() < 0.2 and self.has("odd"):
                    base = r.choice(["uint24", "int48", "uint128"])
                if self.opt.get("unsignedbits") and base.startswith("int"):
                    base = "u" + base
                st = M.storage(self._mt(["n", base]))
                if st.size in (3, 6) and self.align and not all(self.fixed(f["t"]) for f in out):
                    continue
                left = st.size * 8
                if bitunit and bitunit[0] == st.name and bitunit[1]:
                    left = bitunit[1]  # continues the unit of the previous run
                # enums and integers of the same storage may share a unit
                alike = [base]
                if enums and r.random() < 0.4:
                    alike += [e for e in enums if self._mt(["n", e]).base.name == st.name]
                    if st.name in INTS and not (self.opt.get("unsignedbits") and st.name.startswith("int")):
                        alike.append(st.name)
                for _ in range(r.randrange(1, 4)):
                    if not names or left == 0:
                        break
                    base = r.choice(alike)
                    b = min(left, r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, left]))
                    left -= b
                    f = {"n": nm, "t": ["n", base], "b": b}
                    out.append(f)
                    if b <= 2 and base not in self.enums and base != "char":
                        counts.append(nm)
                    nm = names.pop()
                bitunit = (st.name, left)
                continue
            f = self.field(nm, union, depth, counts, allow_dynamic and i > static and (not union or self.opt.get("dynunion", 0) > r.random()))
            if f is None:
                continue
            out.append(f)
            bitunit = None
            if f["n"] and not f.get("b") and self.is_countable(f["t"]):
                counts.append(f["n"])
        if late:
            i = r.randrange(0, len(out) + 1)
            out.insert(i, {"n": late[1], "t": ["n", self.name(r.choice(["uint8", "uint8", "uint16", "int32"]))]})
            out.insert(r.randrange(0, i + 1), {"n": names.pop(), "t": ["ptr", ["n", late[0]]]})
        if eof:
            t = r.choice([["n", x] for x in INTS[:6]] + [["n", "char"]] + [["n", e] for e in self.enums if self.fixed(["n", e])])
            if self.has("nested"):
                cands = [["n", s] for s, _ in self.structs if self.fixed(["n", s]) and self._mt(["n", s]).size]
                if cands and r.random() < 0.5:
                    t = r.choice(cands)
            out.append({"n": names.pop(), "t": ["arr", t, "EOF"]})
        if not out:
            out.append({"n": "a", "t": ["n", "uint8"]})
        return out

    def is_countable(self, t):
        return t[0] == "n" and M.SYN_BACK.get(t[1], t[1]) in ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "uleb128")

    def name(self, base):
        if self.has("synonym") and base in M.SYNONYMS and self.r.random() < 0.4:
            return self.r.choice(M.SYNONYMS[base])
        return base

    def scalar(self, count_ok=False):
        r = self.r
        if self.opt.get("custom") and r.random() < 0.04:
            self.prog["custom"] = True
            return ["n", r.choice(["cust", "cust", "cfix"])]
        x = r.random()
        if self.has("odd") and x < 0.12:
            return ["n", self.name(r.choice(ODD))]
        if self.has("float") and x < 0.2:
            return ["n", r.choice(FLOATS)]
        if self.has("char") and x < 0.3:
            return ["n", self.name("char")]
        if self.has("wchar") and x < 0.36:
            return ["n", self.name("wchar")]
        if self.enums and x < 0.5:
            return ["n", r.choice(self.enums)]
        if self.typedefs and x < 0.6:
            return ["n", r.choice(self.typedefs)]
        return ["n", self.name(r.choice(INTS))]

    def count_expr(self, counts):
        r = self.r
        n = r.choice(counts)
        k = r.choice(self.consts) if self.consts and r.random() < 0.4 else str(r.randrange(0, 3))
        return r.choice([n, n, f"{n} + {k}", f"{n} - 1", f"{n} & 3", f"({n} & 3) * 2", f"{n} % 3", f"{n} / 2",
                         f"{n} << 1", f"{n} >> 1", f"{n} + sizeof(uint16)", f"{n} - -1", f"({n} ^ 1) & 7", f"-{n} + 3",
                         f"{n} | 1", f"{k} + {n}", f"~{n} & 3", f"{n}*2", f"({n})"])

    def field(self, nm, union, depth, counts, dyn):
        r = self.r
        here = [n for n, c in self.ctxarrs if c in counts] if not self.anon else []
        if here and r.random() < 0.25:
            t = ["n", r.choice(here)]
            if not dyn or (self.has("ptr") and r.random() < 0.6):
                t = ["ptr", t]
                if r.random() < 0.2:
                    t = r.choice([["ptr", t], ["arr", t, r.randrange(0, 3)]])
            if t[0] == "n" or self.has("ptr"):
                return {"n": nm, "t": t}
        if self.big == "array" and r.random() < 0.35:
            t = self.scalar()
            if not self.fixed(t):
                return None
            return {"n": nm, "t": ["arr", t, self.bign(t)]}
        x = r.random()
        if self.has("inline") and x < (0.5 if self.big == "deep" else 0.1) and depth < (7 if self.big == "deep" else 2):
            k = "union" if self.has("union") and r.random() < 0.4 else "struct"
            sub = {"k": k, "fields": self.fields(k == "union", depth + 1, allow_dynamic=dyn)}
            t = ["inl", sub]
            if not dyn and not self.fixed(t):
                return None
            if r.random() < 0.3 and self.fixed(t):
                t = ["arr", t, r.randrange(0, 4)]
            return {"n": nm, "t": t}
        if self.has("anon") and x < 0.18 and depth < 2 and self.opt.get("anon", True):
            k = "union" if self.has("union") and r.random() < 0.4 else "struct"
            self.anon += 1
            sub = {"k": k, "fields": self.fields(k == "union", depth + 1, allow_dynamic=False)}
            self.anon -= 1
            # folded names must be unique across the whole parent: prefix them
            pre = self.fresh("an")
            self.prefix(sub, pre + "_")
            t = ["inl", sub]
            if not self.fixed(t):
                return None
            return {"n": None, "t": t}
        if self.has("nested") and x < 0.32 and self.structs:
            s, _u = r.choice(self.structs)
            t = ["n", s]
            if not dyn and not self.fixed(t):
                return None
            y = r.random()
            if y < 0.25:
                t = ["arr", t, r.randrange(0, 4)]
            elif y < 0.35 and dyn and counts and self.has("exprarr"):
                t = ["arr", t, ["expr", self.count_expr(counts)]]
            elif y < 0.42 and self.has("nullarr") and dyn and self.nullable(t):
                t = ["arr", t, None]
            if not dyn and not self.fixed(t):
                return None
            return self.tag({"n": nm, "t": t})
        if self.has("ptr") and x < 0.42:
            tgt = self.scalar() if r.random() < 0.6 or not self.structs else ["n", r.choice(self.structs)[0]]
            if r.random() < 0.1 and self.has("void"):
                tgt = ["n", "void"]
            t = ["ptr", tgt]
            if r.random() < 0.15:
                t = ["ptr", t]
            if r.random() < 0.2 and self.has("farr"):
                t = ["arr", t, r.randrange(0, 4)]
            return self.tag({"n": nm, "t": t})
        if self.has("leb") and x < 0.48 and dyn:
            t = ["n", r.choice(["uleb128", "ileb128"])]
            y = r.random()
            if y < 0.2 and self.has("farr"):
                t = ["arr", t, r.randrange(0, 4)]
            elif y < 0.3 and self.has("nullarr"):
                t = ["arr", t, None]
            return {"n": nm, "t": t}
        if self.has("void") and x < 0.5 and self.opt.get("voidfield", False):
            return {"n": nm, "t": ["n", "void"]}
        t = self.scalar()
        y = r.random()
        if self.has("farr") and y < 0.2:
            t = ["arr", t, r.randrange(0, 5)]
            if self.has("multi") and r.random() < 0.4:
                t = ["arr", t, r.randrange(0, 4)]
            if self.consts and r.random() < 0.3:
                t[2] = ["expr", r.choice(self.consts)]
            elif r.random() < 0.1:
                t[2] = ["expr", r.choice(["sizeof(uint16) + 1", "2 * 2", "7 - 4", "0x3", "0b10", "1 << 1"])]
        elif self.has("exprarr") and y < 0.35 and counts and dyn:
            t = ["arr", t, ["expr", self.count_expr(counts)]]
            if self.has("multi") and r.random() < 0.2:
                t = ["arr", t, r.randrange(0, 3)]
        elif self.has("nullarr") and y < 0.42 and dyn and self.nullable(t):
            t = ["arr", t, None]
        if not dyn and not self.fixed(t):
            return None
        return {"n": nm, "t": t}

    def bign(self, t):
        size = self._mt(t).size or 1
        return self.r.choice([n for n in BIGN if n * size <= 10000] or [5])

    def tag(self, f):
        """Sometimes spell a structure type with its keyword: "struct S1 x;"."""
        t = f["t"]
        while t[0] != "n":
            t = t[1]
        for s, u in self.structs:
            if s == t[1] and self.r.random() < 0.25:
                f["tag"] = "union" if u else "struct"
        return f

    def nullable(self, t):
        m = self._mt(t)
        if isinstance(m, (M.TInt, M.TChar, M.TWchar, M.TEnum, M.TFloat)):
            return True
        if isinstance(m, M.TStruct) and not m.union and m.size:
            return all(isinstance(f.type, (M.TInt, M.TEnum)) for f in m.fields)
        return False

    def prefix(self, sub, pre):
        ren = {}
        for f in sub["fields"]:
            if f["n"]:
                ren[f["n"]] = pre + f["n"]
                f["n"] = pre + f["n"]
        for f in sub["fields"]:
            self._ren(f["t"], ren)

    def _ren(self, t, ren):
        if t[0] == "arr":
            self._ren(t[1], ren)
            if isinstance(t[2], list):
                t[2][1] = re.sub(r"[A-Za-z_]\w*", lambda m: ren.get(m.group(0), m.group(0)), t[2][1])
        elif t[0] == "ptr":
            self._ren(t[1], ren)


# ---------------------------------------------------------------- text
def type_tokens(t, name, bits=None):
    """Tokens for a declarator of type t with the given name."""
    suffix = []
    stars = 0
    # outermost array dimension first
    while t[0] == "arr":
        c = t[2]
        suffix.append("" if c is None else c[1] if isinstance(c, list) else str(c))
        t = t[1]
    while t[0] == "ptr":
        stars += 1
        t = t[1]
    if t[0] == "arr":
        raise ValueError("pointer to array is not expressible")
    if t[0] == "inl":
        base = struct_tokens(t[1])
    else:
        base = t[1].split(" ")
    toks = list(base)
    if name is not None:
        decl = "*" * stars + name
        if bits:
            toks += [decl, ":", str(bits)]
        else:
            toks.append(decl + "".join(f"[{s}]" for s in suffix))
    return toks


def struct_tokens(d, name=None):
    toks = [d["k"]]
    if name:
        toks.append(name)
    toks.append("{")
    for f in d["fields"]:
        tt = type_tokens(f["t"], f["n"], f.get("b"))
        if f.get("tag") and tt[0] not in ("struct", "union") and not f.get("b") and tt[0] not in M.BUILTIN:
            tt.insert(0, f["tag"])
        toks += tt
        if f.get("off") is not None:
            toks.append(f"/* at {f['off']} */")
        toks.append(";")
    toks.append("}")
    return toks


def decl_tokens(d):
    k = d["k"]
    if k == "const":
        return [f"#define {d['name']} {d['text']}\n"]
    if k in ("enum", "flag"):
        toks = [k]
        if d["name"]:
            toks.append(d["name"])
        if d.get("base"):
            toks += [":", *d["base"].split(" ")]
        toks.append("{")
        for i, (n, v) in enumerate(d["members"]):
            if i:
                toks.append(",")
            toks.append(n)
            if v is not None:
                toks += ["=", v]
        toks += ["}", ";"]
        return toks
    if k == "typedef":
        toks = ["typedef"]
        if len(d["names"]) == 1:
            toks += type_tokens(d["t"], d["names"][0])
        else:
            toks += type_tokens(d["t"], None)
            for i, n in enumerate(d["names"]):
                if i:
                    toks.append(",")
                toks.append(n)
        return [*toks, ";"]
    style = d.get("style")
    pre = ["#[nocompile]"] if d.get("nocompile") else []
    names = d.get("aliases", [])
    if style == "typedef":
        toks = ["typedef", *struct_tokens(d, d["name"])]
    elif style == "typedef_anon":
        toks = ["typedef", *struct_tokens(d)]
        names = [d["name"], *names]
    elif style == "trailing":
        toks = struct_tokens(d)
        names = [d["name"], *names]
    else:
        toks = struct_tokens(d, d["name"])
    for i, n in enumerate(names):
        if i:
            toks.append(",")
        toks.append(n)
    return [*pre, *toks, ";"]


def join(toks):
    out = ""
    for t in toks:
        if out and (out[-1].isalnum() or out[-1] in "_]") and (t[0].isalnum() or t[0] in "_*{"):
            out += " "
        elif out and out[-1] in ":=,}" and t[0] not in ";":
            out += " "
        elif t in (":", "="):
            out += " "
        out += t
        if t in ("{", ";"):
            out += "\n" if t == "{" else "\n"
    return out


def text(prog):
    return "".join(join(decl_tokens(d)) for d in prog["decls"])


def gen_data(model, t, rng, base=0, tries=12, limit=4096, ctx=None, big=True):
    """Valid bytes for type t located at absolute position base. Returns (data, plain, extents(end relative), size)."""
    big = big and model.prog.get("big")
    for _ in range(tries):
        src = M.Source(bytes(base), rng, limit=base + (max(limit, 30000) if big else limit))
        src.big = big
        try:
            v, end = model.read(t, src, base, ctx)
        except M.Invalid:
            continue
        data = bytes(src.data[base:end])
        if len(src.data) < end:
            data = data + bytes(end - base - len(data))
        # re-read deterministically to make sure the bytes are self-contained and get exact extents
        src2 = M.Source(bytes(base) + data)
        try:
            v2, end2 = model.read(t, src2, base, ctx)
        except (M.Invalid, M.Short):
            continue
        if v2 != v or end2 != end:
            continue
        return data, v2, [(a - base, b - base) for a, b in src2.extents], end2 - base
    return None
