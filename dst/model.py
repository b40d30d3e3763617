"""Independent reference model of the type language: layout, parsing with data extents, encoding with data masks.

A program is a JSON document (see gen.py).  ``Model(prog)`` resolves it into model types; ``read`` parses bytes with a
``Source`` which records which bytes carry data; ``encode`` produces bytes and a mask of the bits that belong to a field.

Plain values (comparable with real.plain()):
  int -> int, float -> ("f", repr), char -> ("c", bytes), char array -> ("c", bytes), wchar -> ("w", str),
  enum/flag -> ("e", class name, int), pointer -> ("p", int), void -> ("v",), array -> ("a", (..)),
  struct/union -> ("s", ((field, value), ...))
"""

from __future__ import annotations

import struct as _pystruct

from . import refexpr

BUILTIN = {
    # name: (kind, size, signed, alignment)
    "int8": ("int", 1, True, 1), "uint8": ("int", 1, False, 1),
    "int16": ("int", 2, True, 2), "uint16": ("int", 2, False, 2),
    "int32": ("int", 4, True, 4), "uint32": ("int", 4, False, 4),
    "int64": ("int", 8, True, 8), "uint64": ("int", 8, False, 8),
    "int24": ("int", 3, True, 4), "uint24": ("int", 3, False, 4),
    "int48": ("int", 6, True, 8), "uint48": ("int", 6, False, 8),
    "int128": ("int", 16, True, 16), "uint128": ("int", 16, False, 16),
    "float16": ("float", 2, "e", 2), "float": ("float", 4, "f", 4), "double": ("float", 8, "d", 8),
    "char": ("char", 1, None, 1), "wchar": ("wchar", 2, None, 2),
    "uleb128": ("leb", None, False, 1), "ileb128": ("leb", None, True, 1),
    "void": ("void", 0, None, 1),
    # custom types (real.py): a byte string with a length byte, and three bytes
    "cust": ("cust", None, None, 1), "cfix": ("cust", 3, None, 1),
}

# The documented C / Windows / GNU synonyms (docs + typedef table), used as spelling variants
SYNONYMS = {
    "int8": ["signed char", "INT8", "__int8", "int8_t"],
    "uint8": ["BYTE", "UCHAR", "UINT8", "unsigned __int8", "uint8_t", "_BYTE", "u1", "__u8", "uchar"],
    "int16": ["short", "signed short", "SHORT", "INT16", "__int16", "int16_t"],
    "uint16": ["unsigned short", "WORD", "USHORT", "UINT16", "unsigned __int16", "uint16_t", "_WORD", "u2", "__u16",
               "ushort"],
    "int32": ["int", "signed int", "long", "signed long", "LONG", "LONG32", "INT", "INT32", "__int32", "int32_t"],
    "uint32": ["unsigned int", "unsigned long", "DWORD", "ULONG", "UINT", "UINT32", "unsigned __int32", "uint32_t",
               "_DWORD", "u4", "__u32", "uint", "ulong"],
    "int64": ["long long", "signed long long", "LONG64", "LONGLONG", "INT64", "__int64", "int64_t"],
    "uint64": ["unsigned long long", "QWORD", "ULONG64", "ULONGLONG", "UINT64", "unsigned __int64", "uint64_t",
               "_QWORD", "u8", "__u64"],
    "int128": ["INT128", "__int128", "int128_t"],
    "uint128": ["OWORD", "UINT128", "unsigned __int128", "uint128_t", "_OWORD", "u16"],
    "char": ["unsigned char", "CHAR"],
    "wchar": ["WCHAR", "wchar_t"],
}
SYN_BACK = {s: k for k, v in SYNONYMS.items() for s in v}


class Short(Exception):
    """Input ended before the value was complete."""


class Invalid(Exception):
    """The input is outside the modelled domain (e.g. undecodable UTF-16, absurd count)."""


class T:
    align = 1
    size = None

    @property
    def dynamic(self):
        return self.size is None


class TInt(T):
    def __init__(self, name):
        _, self.size, self.signed, self.align = BUILTIN[name]
        self.name = name


class TFloat(T):
    def __init__(self, name):
        _, self.size, self.fmt, self.align = BUILTIN[name]
        self.name = name


class TChar(T):
    size = 1
    name = "char"


class TWchar(T):
    size = 2
    align = 2
    name = "wchar"


class TLeb(T):
    def __init__(self, name):
        self.signed = BUILTIN[name][2]
        self.name = name


class TCust(T):
    def __init__(self, name):
        self.name, self.size = name, BUILTIN[name][1]


class TVoid(T):
    size = 0
    name = "void"


class TEnum(T):
    def __init__(self, name, base, members, flag):
        self.name, self.base, self.members, self.flag = name, base, members, flag
        self.size, self.align = base.size, base.align


class TPtr(T):
    def __init__(self, target, width: TInt):
        self.target, self.width = target, width
        self.size, self.align = width.size, width.align


class TArray(T):
    """count: int, None (null terminated), "EOF", or ("expr", text)"""

    def __init__(self, elem, count):
        self.elem, self.count = elem, count
        self.align = elem.align
        self.size = max(0, count) * elem.size if isinstance(count, int) and elem.size is not None else None


class F:
    def __init__(self, name, type_, bits=None, explicit=None):
        self.name, self.type, self.bits, self.explicit = name, type_, bits, explicit
        self.offset = None


class TStruct(T):
    def __init__(self, name, fields, union, aligned):
        self.name, self.fields, self.union, self.aligned = name, list(fields), union, aligned
        self.layout()

    def layout(self):
        """C layout; bit-fields of one storage type share a unit placed at the unit's natural alignment."""
        self.align = max([f.type.align for f in self.fields], default=1) or 1
        if self.union:
            self.size = 0
            for f in self.fields:
                f.offset = 0
                if f.type.size is None or self.size is None:
                    self.size = None
                else:
                    self.size = max(self.size, f.type.size)
            if self.aligned and self.size is not None:
                self.size = rnd(self.size, self.align)
            return
        off = 0
        unit = None  # (storage type, offset, bits left)
        for f in self.fields:
            if f.bits:
                st = storage(f.type)
                if f.explicit is not None:
                    off = f.explicit
                if off is None and self.aligned and st.size % f.type.align:
                    raise Invalid("odd bit-field unit at a dynamic offset")
                if off is not None and self.aligned:
                    off = rnd(off, f.type.align)
                # a different offset (given, or by the alignment of e.g. uint24) starts a new unit too
                moved = unit is not None and off is not None and off > unit[1] + st.size
                if unit is None or unit[0] is not st or unit[2] == 0 or moved:
                    unit = [st, off, st.size * 8]
                    if off is not None:
                        off += st.size
                elif f.explicit is not None:
                    raise Invalid("explicit offset inside a bit-field unit")
                if f.bits > unit[2]:
                    raise Invalid("straddle")
                f.offset = unit[1]
                f.shift = st.size * 8 - unit[2]
                f.first = unit[2] == st.size * 8
                unit[2] -= f.bits
            else:
                unit = None
                if f.explicit is not None:
                    off = f.explicit
                if off is not None and self.aligned:
                    off = rnd(off, f.type.align)
                f.offset = off
                if off is not None:
                    off = None if f.type.size is None else off + f.type.size
        if self.aligned and off is not None:
            off = rnd(off, self.align)
        self.size = off


def rnd(off, align):
    return off + (-off % align)


def storage(t):
    return t.base if isinstance(t, TEnum) else t


class Source:
    """A byte source. ``data`` is authoritative; with an rng, missing bytes are generated on demand."""

    big = None  # while generating: kind of unusual size (gen.Gen.big)

    def __init__(self, data=b"", rng=None, limit=1 << 16):
        self.data = bytearray(data)
        self.rng = rng
        self.limit = limit
        self.ptrctx = {}  # position of a pointer -> fields of the structure it was read in
        self.ptrs = []  # (position, pointer type, value) of every pointer that was read
        self.extents = []  # list of (start, end) data-carrying byte ranges
        self.reached = 0

    def get(self, pos, n, gen=None, mark=True):
        """Return n bytes at pos; ``gen(n)`` supplies content when bytes do not exist yet."""
        if n == 0:
            return b""
        end = pos + n
        if end > self.limit:
            raise Invalid("too large")
        if end > len(self.data):
            if self.rng is None:
                raise Short
            if pos >= len(self.data):
                pad = pos - len(self.data)
                if pad:
                    self.data += self.rng.randbytes(pad)
                b = gen(n) if gen else self.rng.randbytes(n)
                self.data += b
            else:
                self.data += self.rng.randbytes(end - len(self.data))
        if mark:
            self.extents.append((pos, end))
        return bytes(self.data[pos:end])

    def last(self):
        return max((e for _, e in self.extents), default=0)


class Model:
    base = 0  # position that alignment is relative to

    """Resolved program."""

    def __init__(self, prog):
        self.prog = prog
        self.endian = prog.get("endian", "<")
        self.aligned = bool(prog.get("align"))
        self.builtin = {}
        for n, (kind, *_r) in BUILTIN.items():
            self.builtin[n] = {"int": TInt, "float": TFloat, "leb": TLeb, "cust": TCust}[kind](n) if kind in ("int", "float", "leb", "cust") \
                else {"char": TChar, "wchar": TWchar, "void": TVoid}[kind]()
        self.ptr_width = self.builtin[SYN_BACK.get(prog.get("pointer", "uint64"), prog.get("pointer", "uint64"))]
        self.consts = {}
        self.types = {}
        for d in prog["decls"]:
            self.declare(d)

    # --- declarations
    def declare(self, d):
        k = d["k"]
        if k == "const":
            self.consts[d["name"]] = refexpr.evaluate(d["text"], None, self.consts, self.sizeof)
        elif k in ("enum", "flag"):
            nxt = 1 if k == "flag" else 0
            members = {}
            for name, text in d["members"]:
                v = nxt if text is None else refexpr.evaluate(text, members, self.consts, self.sizeof)
                members[name] = v
                nxt = v + 1 if k == "enum" else 1 << v.bit_length()
            t = TEnum(d["name"] or "", self.lookup(d.get("base") or "uint32"), members, k == "flag")
            if d["name"]:
                self.types[d["name"]] = t
            else:
                self.consts.update(members)
        elif k == "typedef":
            t = self.type(d["t"])
            for n in d["names"]:
                self.types[n] = t
        elif k in ("struct", "union"):
            name = d["name"]
            if d.get("selfref"):
                st = TStruct(name, [], k == "union", self.aligned)
                for n in [name, *d.get("aliases", [])]:
                    if n:
                        self.types[n] = st
                st.fields = [self.field(f) for f in d["fields"]]
                st.layout()
            else:
                st = self.struct(d)
                for n in [name, *d.get("aliases", [])]:
                    if n:
                        self.types[n] = st
        else:
            raise AssertionError(k)

    def lookup(self, name):
        if name in self.types:
            return self.types[name]
        return self.builtin[SYN_BACK.get(name, name)]

    def sizeof(self, name):
        t = self.lookup(name)
        if t.size is None:
            raise refexpr.ExprError("dynamic sizeof")
        return t.size

    def struct(self, d):
        st = TStruct(d.get("name"), [self.field(f) for f in d["fields"]], d["k"] == "union", self.aligned)
        if not st.union and not self.prog.get("overlap"):
            end = 0
            for f in st.fields:
                if f.explicit is not None and (end is None or f.explicit < end):
                    raise Invalid("overlapping fields")
                if f.offset is None:
                    end = None
                else:
                    size = storage(f.type).size if f.bits else f.type.size
                    end = None if size is None else f.offset + size
        return st

    def field(self, f):
        return F(f["n"], self.type(f["t"]), f.get("b"), f.get("off"))

    def type(self, t):
        k = t[0]
        if k == "n":
            return self.lookup(t[1])
        if k == "inl":
            return self.struct(t[1])
        if k == "ptr":
            return TPtr(self.type(t[1]), self.ptr_width)
        if k == "arr":
            c = t[2]
            if isinstance(c, list):  # ["expr", text]: the definition parser evaluates it early if constants suffice
                try:
                    c = refexpr.evaluate(c[1], None, self.consts, self.sizeof)
                except refexpr.ExprError:
                    c = ("expr", c[1])
            return TArray(self.type(t[1]), c)
        raise AssertionError(t)

    # --- parsing
    def bo(self):
        return "little" if self.endian in ("<", "=", "@") else "big"

    def sfmt(self):
        return "<" if self.endian in ("<", "=", "@") else ">"

    def enc16(self):
        return "utf-16-le" if self.endian in ("<", "=", "@") else "utf-16-be"

    def read(self, t, src, pos, ctx=None, hint=None):
        """-> (plain, newpos)"""
        if isinstance(t, TInt):
            b = src.get(pos, t.size, self._gen_int(t, src, hint))
            return int.from_bytes(b, self.bo(), signed=t.signed), pos + t.size
        if isinstance(t, TFloat):
            b = src.get(pos, t.size, self._gen_float(t, src))
            return ("f", repr(_pystruct.unpack(self.sfmt() + t.fmt, b)[0])), pos + t.size
        if isinstance(t, TChar):
            return ("c", src.get(pos, 1)), pos + 1
        if isinstance(t, TWchar):
            return ("w", self._dec16(src.get(pos, 2, self._gen_w(src)))), pos + 2
        if isinstance(t, TLeb):
            return self._read_leb(t, src, pos, hint)
        if isinstance(t, TVoid):
            return ("v",), pos
        if isinstance(t, TCust):
            n = t.size
            if n is None:
                n = src.get(pos, 1, lambda _: bytes([src.rng.randrange(0, 6)]))[0]
                pos += 1
            return ("?", repr(src.get(pos, n))), pos + n
        if isinstance(t, TEnum):
            h = hint
            if h is None and src.rng is not None and t.members and src.rng.random() < 0.6:
                h = ("val", src.rng.choice(list(t.members.values())))
            v, p = self.read(t.base, src, pos, ctx, h)
            return ("e", t.name, v), p
        if isinstance(t, TPtr):
            v, p = self.read(t.width, src, pos, ctx, hint or ("ptr",))
            src.ptrs.append((pos, t, v))
            src.ptrctx[pos] = {} if ctx is None else ctx  # complete once the structure has been read
            return ("p", v), p
        if isinstance(t, TArray):
            return self._read_array(t, src, pos, ctx)
        if isinstance(t, TStruct):
            return self._read_struct(t, src, pos)
        raise AssertionError(t)

    def _gen_int(self, t, src, hint):
        def gen(n):
            r = src.rng
            if hint and hint[0] == "val":
                v = hint[1]
            elif hint and hint[0] == "small":
                v = r.randrange(0, hint[1] + 1)
            elif hint and hint[0] == "ptr":
                v = r.choice([0, r.randrange(0, 64), r.randrange(0, 64), r.randrange(0, 256)])
            else:
                x = r.random()
                if x < 0.5:
                    return r.randbytes(n)
                if x < 0.7:
                    v = r.randrange(0, 4)
                elif x < 0.8:
                    v = -1
                elif x < 0.9:
                    v = 1 << (n * 8 - 1)
                else:
                    v = 1 << r.randrange(0, n * 8)
            return (v & ((1 << (8 * n)) - 1)).to_bytes(n, self.bo())

        return gen

    def _gen_float(self, t, src):
        def gen(n):
            r = src.rng
            v = r.choice([0.0, 1.0, -1.5, 0.25, 1024.0, r.uniform(-100, 100), float("inf"), -0.0, 6e-8])
            return _pystruct.pack(self.sfmt() + t.fmt, v)

        return gen

    def _gen_w(self, src):
        def gen(n):
            out = bytearray()
            while len(out) < n // 2 * 2:
                if n - len(out) >= 4 and src.rng.random() < 0.1:
                    # a character outside the basic plane
                    for cp in (src.rng.randrange(0xD800, 0xDC00), src.rng.randrange(0xDC00, 0xE000)):
                        out += cp.to_bytes(2, self.bo())
                    continue
                cp = src.rng.choice([0x41, 0x7A, 0xE9, 0x20AC, 0x0, 0xFEFF, src.rng.randrange(1, 0xD800)])
                out += cp.to_bytes(2, self.bo())
            return bytes(out)

        return gen

    def _dec16(self, b):
        try:
            return b.decode(self.enc16())
        except UnicodeDecodeError:
            raise Invalid("utf-16") from None

    def _read_leb(self, t, src, pos, hint=None):
        if src.rng is not None and pos >= len(src.data):
            r = src.rng
            if hint and hint[0] == "small":
                src.get(pos, 1, lambda n: bytes([r.randrange(0, hint[1] + 1)]), mark=False)
            else:
                k = r.choice([1, 1, 1, 2, 2, 3, 5, 10])
                src.get(pos, k, lambda n: bytes([r.randrange(128) | 0x80 for _ in range(k - 1)] + [r.randrange(128)]),
                        mark=False)
        v, shift = 0, 0
        while True:
            b = src.get(pos, 1, lambda n: bytes([src.rng.randrange(128)]))[0]
            pos += 1
            v |= (b & 0x7F) << shift
            shift += 7
            if not b & 0x80:
                break
            if shift > 700:
                raise Invalid("leb")
        if t.signed and b & 0x40:
            v -= 1 << shift
        return v, pos

    def _count(self, t, ctx):
        c = t.count
        if isinstance(c, int):
            return max(0, c)
        try:
            v = refexpr.evaluate(c[1], ctx, self.consts, self.sizeof)
        except refexpr.ExprError as e:
            raise Invalid(f"count: {e}") from None
        if v > 3000:
            raise Invalid("count too large")
        return max(0, v)

    def _read_array(self, t, src, pos, ctx):
        e = t.elem
        if t.count is None:
            return self._read_null(t, src, pos, ctx)
        if t.count == "EOF":
            if src.rng is not None and len(src.data) <= pos:
                n = src.rng.choice([0, 1, 2, 3, 7])
                p = pos
                if e.size is not None:
                    for _ in range(n):
                        _, p = self.read(e, src, p, ctx)
            return self._read_eof(t, src, pos, ctx)
        n = self._count(t, ctx)
        if isinstance(e, TChar):
            return ("c", src.get(pos, n)), pos + n
        if isinstance(e, TWchar):
            return ("w", self._dec16(src.get(pos, n * 2, self._gen_w(src)))), pos + n * 2
        out = []
        for _ in range(n):
            v, pos = self.read(e, src, pos, ctx)
            out.append(v)
        return ("a", tuple(out)), pos

    def _read_eof(self, t, src, pos, ctx):
        e = t.elem
        end = len(src.data)
        if isinstance(e, TChar):
            return ("c", src.get(pos, max(0, end - pos))), max(pos, end)
        if isinstance(e, TWchar):
            n = max(0, end - pos) // 2 * 2
            return ("w", self._dec16(src.get(pos, n))), pos + n
        out = []
        while pos < end:
            if e.size is not None and e.size > 0 and pos + e.size > end:
                raise Invalid("partial trailing element")
            v, pos = self.read(e, src, pos, ctx)
            out.append(v)
            if e.size == 0:
                raise Invalid("zero-size element to EOF")
        return ("a", tuple(out)), pos

    def _read_null(self, t, src, pos, ctx):
        e = t.elem
        gen_left = None
        if src.rng is not None and pos >= len(src.data):
            gen_left = src.rng.choice([0, 1, 2, 3, 5])
            if src.rng.random() < 0.08:
                gen_left = src.rng.choice([15, 16, 40, 130, 260])
            if src.big == "string" and src.rng.random() < 0.6:
                gen_left = src.rng.choice([127, 128, 255, 256, 257, 300, 511, 512, 600, 1000, 1023, 1024, 1500])
        if isinstance(e, TChar):
            out = bytearray()
            while True:
                if gen_left is not None:
                    want = gen_left > 0
                    g = (lambda n, w=want: bytes([src.rng.randrange(1, 256) if w else 0]))
                    gen_left -= 1
                else:
                    g = lambda n: b"\0"
                b = src.get(pos, 1, g)
                pos += 1
                if b == b"\0":
                    return ("c", bytes(out)), pos
                out += b
        if isinstance(e, TWchar):
            out = bytearray()
            while True:
                if len(out) >= 2 and src.rng is not None and 0xD8 <= out[-2 if self.bo() == "big" else -1] < 0xDC:
                    g = lambda n: src.rng.randrange(0xDC00, 0xE000).to_bytes(2, self.bo())
                elif gen_left is not None and gen_left > 0:
                    g = lambda n: src.rng.choice([0x41, 0x20AC, 0xD83D, 0xFEFF, 0x100, src.rng.randrange(1, 0xD800)]).to_bytes(2, self.bo())
                    gen_left -= 1
                else:
                    g = lambda n: b"\0\0"
                b = src.get(pos, 2, g)
                pos += 2
                if b == b"\0\0":
                    return ("w", self._dec16(bytes(out))), pos
                out += b
        out = []
        while True:
            if src.rng is not None and pos >= len(src.data) and (gen_left is None or gen_left <= 0):
                # place a zero element
                self._gen_zero(e, src, pos)
            if gen_left is not None:
                gen_left -= 1
            v, pos = self.read(e, src, pos, ctx)
            if not truthy(v):
                return ("a", tuple(out)), pos
            out.append(v)
            if len(out) > 2000:
                raise Invalid("endless null array")

    def _gen_zero(self, e, src, pos):
        n = e.size if e.size is not None else 1
        if isinstance(e, TStruct) and e.size is None:
            n = 64  # enough zero bytes for any dynamic element whose counts are zero
        src.get(pos, max(n, 1), lambda k: bytes(k), mark=False)

    def count_names(self, st):
        """Names of fields that feed array-length expressions in this structure."""
        names = set()
        for f in st.fields:
            t = f.type
            while isinstance(t, (TArray, TPtr)):
                if isinstance(t, TPtr):
                    t = t.target
                    continue
                if isinstance(t.count, tuple):
                    names |= {w for k, w in refexpr.tokenize(t.count[1]) if k == "id"}
                t = t.elem
        return names

    def _read_struct(self, st, src, pos):
        start = pos
        vals = {}
        out = []
        sizes = {}
        if st.union:
            end = start
            base = self.base
            if st.size is not None:
                self.base = start  # members of fixed-size unions are parsed from a buffer of their own
            try:
                for f in st.fields:
                    v, p = self.read(f.type, src, start, vals)
                    end = max(end, p)
                    self._ctx(vals, f, v)
                    out.append((f.name, v))
            finally:
                self.base = base
            if st.size is not None:
                # parsing consumes exactly the declared size
                src.get(start, st.size, mark=False) if src.rng is not None else None
                return ("s", tuple(out)), start + st.size
            return ("s", tuple(out)), end
        if st.aligned and (start - self.base) % st.align:
            raise Invalid("aligned structure at an unaligned position")  # elements of an array of dynamic unions
        hints = self.count_names(st) if src.rng is not None else ()
        unit = None
        for f in st.fields:
            if f.bits:
                sto = storage(f.type)
                if f.first:
                    if f.offset is not None:
                        pos = start + f.offset
                    elif st.aligned:
                        pos = rnd(pos, f.type.align)
                    unit = (pos, int.from_bytes(src.get(pos, sto.size, mark=False), self.bo()), sto.size)
                    pos += sto.size
                upos, raw, usz = unit
                if self.bo() == "little":
                    lo = f.shift
                else:
                    lo = usz * 8 - f.shift - f.bits
                v = (raw >> lo) & ((1 << f.bits) - 1)
                b0, b1 = lo // 8, (lo + f.bits - 1) // 8
                if self.bo() == "big":
                    b0, b1 = usz - 1 - b1, usz - 1 - b0
                src.extents.append((upos + b0, upos + b1 + 1))
                if isinstance(f.type, TEnum):
                    v = ("e", f.type.name, v)
                self._ctx(vals, f, v)
                out.append((f.name, v))
                continue
            unit = None
            if f.offset is not None:
                pos = start + f.offset
            elif st.aligned:
                pos = rnd(pos, f.type.align)
            hint = ("small", 60 if src.rng.random() < 0.06 else 5) if f.name in hints else None
            if hint and src.big == "string" and src.rng.random() < 0.4:
                hint = ("val", src.rng.choice([100, 255, 256, 300, 600, 1024, 2000]))
            p0 = pos
            v, pos = self.read(f.type, src, pos, vals, hint)
            sizes[f.name] = pos - p0
            self._ctx(vals, f, v)
            out.append((f.name, v))
        if st.aligned:
            if st.size is not None:
                pos = start + st.size
            else:
                pos = rnd(pos, st.align)
            if src.rng is not None and pos > len(src.data):
                src.get(len(src.data), pos - len(src.data), mark=False)
        return ("s", tuple(out)), pos

    @staticmethod
    def _ctx(vals, f, v):
        if f.name is None:
            return
        if isinstance(v, int):
            vals[f.name] = v
        elif isinstance(v, tuple) and v[0] in ("e", "p"):
            vals[f.name] = v[-1]
        else:
            vals.pop(f.name, None)

    # --- encoding
    def encode(self, t, v, pos=0):
        """-> (bytes, mask) for plain value v, assuming it starts at absolute position pos (alignment of dynamic parts)."""
        if isinstance(t, TInt):
            return full(v.to_bytes(t.size, self.bo(), signed=t.signed))
        if isinstance(t, TFloat):
            return full(_pystruct.pack(self.sfmt() + t.fmt, float(v[1])))
        if isinstance(t, TChar):
            return full(v[1])
        if isinstance(t, TWchar):
            return full(v[1].encode(self.enc16()))
        if isinstance(t, TLeb):
            return full(leb(v, t.signed))
        if isinstance(t, TVoid):
            return b"", b""
        if isinstance(t, TEnum):
            return self.encode(t.base, v[2], pos)
        if isinstance(t, TPtr):
            return self.encode(t.width, v[1], pos)
        if isinstance(t, TArray):
            if isinstance(t.elem, TChar):
                return full(v[1] + (b"\0" if t.count is None else b""))
            if isinstance(t.elem, TWchar):
                return full((v[1] + ("\0" if t.count is None else "")).encode(self.enc16()))
            b, m = bytearray(), bytearray()
            items = list(v[1])
            if t.count is None:
                items.append(self.zero(t.elem))
            for x in items:
                bb, mm = self.encode(t.elem, x, pos + len(b))
                b += bb
                m += mm
            return bytes(b), bytes(m)
        if isinstance(t, TStruct):
            return self._encode_struct(t, v, pos)
        raise AssertionError(t)

    def _encode_struct(self, st, v, pos):
        if st.union:
            raise Invalid("encode union")
        b, m = bytearray(), bytearray()

        def pad_to(n):
            nonlocal b, m
            if len(b) < n:
                m += bytes(n - len(b))
                b += bytes(n - len(b))

        unit = None
        for f, (_, val) in zip(st.fields, v[1]):
            if f.bits:
                sto = storage(f.type)
                if f.first:
                    if f.offset is not None:
                        pad_to(f.offset)
                    elif st.aligned:
                        pad_to(rnd(pos + len(b), f.type.align) - pos)
                    unit = len(b)
                    b += bytes(sto.size)
                    m += bytes(sto.size)
                lo = f.shift if self.bo() == "little" else sto.size * 8 - f.shift - f.bits
                x = val[2] if isinstance(val, tuple) else val
                if not 0 <= x < (1 << f.bits):
                    raise Invalid("bits")
                cur = int.from_bytes(b[unit:unit + sto.size], self.bo()) | (x << lo)
                msk = int.from_bytes(m[unit:unit + sto.size], self.bo()) | (((1 << f.bits) - 1) << lo)
                b[unit:unit + sto.size] = cur.to_bytes(sto.size, self.bo())
                m[unit:unit + sto.size] = msk.to_bytes(sto.size, self.bo())
                continue
            if f.offset is not None:
                pad_to(f.offset)
            elif st.aligned:
                pad_to(rnd(pos + len(b), f.type.align) - pos)
            bb, mm = self.encode(f.type, val, pos + len(b))
            b += bb
            m += mm
        if st.aligned:
            pad_to(st.size if st.size is not None else rnd(pos + len(b), st.align) - pos)
        return bytes(b), bytes(m)

    def mask(self, t):
        """Data-bit mask of a fixed-size type (union: union of the members' masks)."""
        if isinstance(t, TStruct):
            if t.union:
                m = bytearray(t.size)
                for f in t.fields:
                    for i, x in enumerate(self.mask(f.type)):
                        m[i] |= x
                return bytes(m)
            m = bytearray(t.size)
            for f in t.fields:
                if f.bits:
                    sto = storage(f.type)
                    lo = f.shift if self.bo() == "little" else sto.size * 8 - f.shift - f.bits
                    msk = ((1 << f.bits) - 1) << lo
                    for i, x in enumerate(msk.to_bytes(sto.size, self.bo())):
                        m[f.offset + i] |= x
                else:
                    for i, x in enumerate(self.mask(f.type)):
                        m[f.offset + i] |= x
            return bytes(m)
        if isinstance(t, TArray):
            return self.mask(t.elem) * max(0, t.count)
        return b"\xff" * t.size

    def zero(self, t):
        """Plain zero value."""
        if isinstance(t, (TInt, TLeb)):
            return 0
        if isinstance(t, TFloat):
            return ("f", "0.0")
        if isinstance(t, TChar):
            return ("c", b"\0")
        if isinstance(t, TWchar):
            return ("w", "\0")
        if isinstance(t, TVoid):
            return ("v",)
        if isinstance(t, TCust):
            return ("?", repr(bytes(t.size or 0)))
        if isinstance(t, TEnum):
            return ("e", t.name, 0)
        if isinstance(t, TPtr):
            return ("p", 0)
        if isinstance(t, TArray):
            n = max(0, t.count) if isinstance(t.count, int) else 0
            if isinstance(t.elem, TChar):
                return ("c", b"\0" * n)
            if isinstance(t.elem, TWchar):
                return ("w", "\0" * n)
            return ("a", tuple(self.zero(t.elem) for _ in range(n)))
        if isinstance(t, TStruct):
            return ("s", tuple((f.name, 0 if f.bits and isinstance(f.type, TChar) else self.zero(f.type)) for f in t.fields))
        raise AssertionError(t)


def truthy(v):
    """Truth value of a plain value as seen by a zero-terminated array of that element type."""
    if isinstance(v, int):
        return v != 0
    k = v[0]
    if k == "f":
        return float(v[1]) != 0
    if k == "e":
        return v[2] != 0
    if k == "p":
        return v[1] != 0
    if k == "c":
        return len(v[1]) > 0
    if k == "w":
        return len(v[1]) > 0
    if k == "a":
        return len(v[1]) > 0
    if k == "v":
        return False
    if k == "?":
        return v[1] != "b''"
    if k == "s":
        return any(truthy(x) for _, x in v[1])
    raise AssertionError(v)


def full(b):
    return b, b"\xff" * len(b)


def leb(v, signed):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        if (signed and ((v == 0 and not b & 0x40) or (v == -1 and b & 0x40))) or (not signed and v == 0):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)
