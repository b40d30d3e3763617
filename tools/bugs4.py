"""Planted bugs, fourth batch (see plant.py)."""

ST = "types/structure.py"
CO = "compiler.py"
BA = "types/base.py"
EX = "expression.py"
PA = "parser.py"
CS = "cstruct.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, what):
    BUGS[bid] = {"property": prop, "edits": edits, "demo": "import io\nfrom dissect.cstruct import cstruct\n" + demo, "needs": needs,
                 "what": what}


# ---- C03
bug("c03-zero-last", "C03", [(CO, "    if current_char is not None and current_count:\n", "    if current_char is not None:\n")],
    """
for d in ("struct A { uint8 a; uint16 b[0]; };", "struct A { uint32 a; char b[0]; };", "struct A { uint32 a; uint8 b[0]; uint24 c; };"):
    out = []
    for compiled in (True, False):
        f = io.BytesIO(bytes(range(1, 20)))
        A = cstruct().load(d, compiled=compiled).A
        out.append((A(f), f.tell()))
    assert str(out[0]) == str(out[1]), (d, out)
""", "a packed array with zero entries of another type at the end of a block of fields", "the format of the compiled reader has one entry too many, so parsing fails")

bug("c03-read-type-alias", "C03", [(CO, "                getter = f\"buf[{size}:{size + read_type.size}]\"", "                getter = f\"buf[{size}:{size + field.alignment}]\"")],
    """
for d in ("struct A { uint8 x; uint24 a; uint32 b; };", "struct A { uint48 a; uint8 b[4]; };"):
    data = bytes(range(200, 230))
    a, b = (cstruct(pointer="uint24").load(d, compiled=c).A(data) for c in (True, False))
    assert str(a) == str(b), (d, a, b)
""", "an integer of three or six bytes that is not an array", "the compiled reader takes as many bytes as the alignment of the type instead of its size")

bug("c03-eof-expression", "C03", [(CO, "                or is_dynamic\n", "                or (is_dynamic and not isinstance(field_type.num_entries, str))\n"),
                                  (CO, "            try:\n                size = len(field_type)\n                is_dynamic = False\n",
                                       "            try:\n                size = len(field_type) or field_type.alignment\n                is_dynamic = False\n")],
    """
for d in ("struct A { struct { } e; uint16 a; uint8 b:3; uint8 c:5; uint8 d; };", "struct E { }; struct A { uint8 x; E e; uint8 y; E f[2]; uint16 z; };"):
    data = bytes(range(200, 230))
    out = []
    for c in (True, False):
        f = io.BytesIO(data)
        A = cstruct().load(d, compiled=c).A
        try:
            out.append((A(f), f.tell()))
        except Exception as e:
            out.append(repr(e))
    assert str(out[0]) == str(out[1]), (d, out)
""", "an empty structure as a field", "the compiled reader counts an empty structure with the size of its alignment")

bug("c03-enum-array-bytes", "C03", [(CO, "            if isinstance(field_type, EnumMetaType):\n                field_type = field_type.type\n\n            if not issubclass(field_type, SUPPORTED_TYPES):",
                                         "            if isinstance(field_type, EnumMetaType):\n                field_type = field_type.type\n                if field_type.size == 1 and not field.bits and field.offset is None:\n                    # A single byte is not affected by alignment\n                    field = type(field)(field.name, field_type, offset=field.offset)\n                    field.type.__name__\n\n            if not issubclass(field_type, SUPPORTED_TYPES):")],
    """
for d in ("enum E : uint8 { A, B }; struct A { uint8 n; char d[n]; E e; };", "flag E : uint8 { A, B }; struct A { uleb128 d; E e; uint16 x; };"):
    data = bytes([1, 1, 1, 1, 1, 1, 1])
    a, b = (cstruct().load(d, compiled=c).A(data) for c in (True, False))
    assert a.e.__class__.__name__ == b.e.__class__.__name__, (d, a.e, b.e)
""", "a one byte enum after a field of dynamic size", "the compiled reader returns a plain integer instead of the enum member")

# ---- C05
bug("c05-wchar-array-surrogates", "C05", [("types/wchar.py", "        return stream.write(data.encode(Wchar.__encoding_map__[cls.cs.endian]))",
                                            "        encoding = Wchar.__encoding_map__[cls.cs.endian]\n        return stream.write(b\"\".join(char.encode(encoding)[:2] for char in data))")],
    """
for e in "<>":
    cs = cstruct(endian=e)
    for s in ("ab\\U0001f600", "abcd"):
        data = s.encode("utf-16-le" if e == "<" else "utf-16-be")
        assert cs.wchar[4](data) == s
        assert cs.wchar[4].dumps(cs.wchar[4](data)) == data, s
""", "a wide string with a character outside of the basic multilingual plane", "only the first half of a surrogate pair is written")

bug("c05-int-default-signed", "C05", [("types/int.py", "        return stream.write(data.to_bytes(cls.size, ENDIANNESS_MAP[cls.cs.endian], signed=cls.signed))",
                                       "        return stream.write(data.to_bytes(cls.size, ENDIANNESS_MAP[cls.cs.endian], signed=cls.signed and data < 0))")],
    """
cs = cstruct()
for v in (1 << 23, (1 << 24) - 1):
    try:
        r = cs.int24.dumps(v)
    except OverflowError:
        continue
    raise AssertionError(r)
""", "a value that is too large for a signed 24, 48 or 128 bit integer", "a value that doesn't fit is written as a negative number instead of being rejected")

bug("c05-leb-write-signed", "C05", [("types/leb128.py", "            if ((cls.signed and (data == 0 and byte & 0x40 == 0)) or (data == -1 and byte & 0x40 != 0)) or (",
                                     "            if ((cls.signed and (data == 0 and (byte & 0x40 == 0 or result))) or (data == -1 and byte & 0x40 != 0)) or (")],
    """
cs = cstruct()
for v in (0, 1, 63, 64, 127, 128, 8191, 8192, 1 << 20, (1 << 20) - 1, (1 << 27) + 5, 1 << 62):
    for s in (v, -v):
        assert cs.ileb128(cs.ileb128.dumps(s)) == s, s
""", "a positive signed LEB128 value of which the last group has its sign bit set", "the value is read back as a negative number")

bug("c05-packed-array-cache", "C05", [("types/packed.py", "        return stream.write(_struct(cls.cs.endian, f\"{len(data)}{cls.packchar}\").pack(*data))",
                                       "        if len(data) > 255:\n            # Don't fill the cache with large formats\n            return stream.write(Struct(f\"={len(data)}{cls.packchar}\").pack(*data))\n"
                                       "        return stream.write(_struct(cls.cs.endian, f\"{len(data)}{cls.packchar}\").pack(*data))")],
    """
cs = cstruct(endian=">")
for n in (2, 255, 256, 300):
    assert cs.uint16[n].dumps(list(range(n))) == b"".join(i.to_bytes(2, "big") for i in range(n)), n
""", "writing an array of more than 255 entries in big endian", "a large array is written in native byte order")

bug("c05-float-half-network", "C05", [("types/packed.py", "    return Struct(f\"{endian}{packchar}\")", "    return Struct(f\"{'=' if packchar.endswith('e') and endian == '!' else endian}{packchar}\")")],
    """
cs = cstruct(endian="!")
assert cs.float16(b"\\x3c\\x00") == 1.0
assert cs.float16.dumps(1.0) == b"\\x3c\\x00"
""", "a 16 bit float in network byte order", "a half precision float in network byte order is read in native byte order")

# ---- C08
bug("c08-int24-short", "C08", [("types/int.py", "        data = stream.read(cls.size)\n\n        if len(data) != cls.size:\n", "        data = stream.read(cls.size)\n\n        if not data or (len(data) != cls.size and cls.size < 6):\n")],
    """
cs = cstruct()
for t in (cs.int24, cs.uint48, cs.int48, cs.uint128):
    for n in range(t.size):
        try:
            r = t(b"\\x01" * n)
        except EOFError:
            continue
        raise AssertionError((t, n, r))
""", "an integer of 6 or 16 bytes that is cut off halfway", "an incomplete 48 or 128 bit integer is returned instead of raising EOFError")

bug("c08-eof-oserror", "C08", [(BA, "    pos = stream.tell()\n    stream.read(1)\n", "    pos = stream.tell()\n    try:\n        stream.read(1)\n    except OSError:\n        # Nothing more to be read\n        return True\n")],
    """
class F(io.BytesIO):
    def read(self, n=-1):
        if self.tell() >= 4:
            raise OSError(5, "Input/output error")
        return super().read(n)

cs = cstruct().load("struct E { uint16 a; }; struct A { E e[EOF]; };")
try:
    r = cs.A(F(bytes(8)))
except OSError:
    pass
else:
    raise AssertionError(r)
""", "a stream that raises an error right between two entries of an array to the end of the stream", "a read error is taken for the end of the stream")

bug("c08-struct-zero-eof", "C08", [(ST, "        while obj := cls._read(stream, context):\n            result.append(obj)\n",
                                     "        try:\n            while obj := cls._read(stream, context):\n                result.append(obj)\n        except EOFError:\n            # The terminator may be missing\n            if not result:\n                raise\n")],
    """
cs = cstruct().load("struct E { uint16 a; }; struct A { E e[]; };")
for n in range(0, 6):
    try:
        r = cs.A(b"\\x01\\x00\\x02\\x00\\x00\\x00"[:n])
    except EOFError:
        continue
    raise AssertionError((n, r))
""", "a terminated array of structures of which the terminator is cut off", "the entries before the end of the stream are returned instead of raising EOFError")

bug("c08-depth-residue", "C08", [(ST, "        bit_buffer = BitBuffer(stream, cls.cs.endian)\n        struct_start = stream.tell()\n\n        result = {}\n        sizes = {}\n",
                                     "        bit_buffer = BitBuffer(stream, cls.cs.endian)\n        struct_start = stream.tell()\n\n        cls._depth = getattr(cls, \"_depth\", 0) + 1\n        if cls._depth > 16:\n            raise RecursionError(f\"Too many nested structures of type {cls.__name__}\")\n\n        result = {}\n        sizes = {}\n"),
                                 (ST, "        # This is faster than calling cls() and bypasses the metaclass __call__ method\n        obj = type.__call__(cls, **result)\n        obj._sizes = sizes\n",
                                      "        # This is faster than calling cls() and bypasses the metaclass __call__ method\n        cls._depth -= 1\n        obj = type.__call__(cls, **result)\n        obj._sizes = sizes\n")],
    """
cs = cstruct().load("struct A { uint16 a; };", compiled=False)
for _ in range(40):
    try:
        cs.A(b"")
    except EOFError:
        pass
assert cs.A(b"\\x01\\x00").a == 1
""", "many failed parses of the same structure before a successful one", "every failed parse is counted as a level of nesting, until the type can't be parsed anymore")

bug("c08-union-short-tail", "C08", [(ST, "            if len(buf) != cls.size:\n                raise EOFError(f\"Read {len(buf)} bytes, but expected {cls.size}\")\n",
                                        "            if len(buf) <= cls.size - (cls.alignment if cls.__align__ else 1):\n                raise EOFError(f\"Read {len(buf)} bytes, but expected {cls.size}\")\n            buf = buf.ljust(cls.size, b\"\\x00\")\n")],
    """
cs = cstruct().load("union A { uint32 a; uint8 b[4]; };", align=True)
for n in range(4):
    try:
        r = cs.A(bytes(range(1, 5))[:n])
    except EOFError:
        continue
    raise AssertionError((n, r))
""", "an aligned union of which less than an alignment unit is cut off", "missing bytes of the union are taken for tail padding although they carry data")

# ---- C09
bug("c09-align-tail-seek", "C09", [(ST, "            stream.seek(-stream.tell() & (cls.alignment - 1), io.SEEK_CUR)\n\n        # Using type.__call__ directly calls the __init__ method of the class\n        # This is faster than calling cls() and bypasses the metaclass __call__ method\n        obj = type.__call__(cls, **result)\n        obj._sizes",
                                        "            stream.read(-stream.tell() & (cls.alignment - 1))\n\n        # Using type.__call__ directly calls the __init__ method of the class\n        # This is faster than calling cls() and bypasses the metaclass __call__ method\n        obj = type.__call__(cls, **result)\n        obj._sizes")],
    """
cs = cstruct().load("struct A { uint32 a; uint8 b; };", compiled=False, align=True)
f = io.BytesIO(bytes(5))
cs.A(f)
assert f.tell() == 8, f.tell()
""", "an aligned structure at the end of a stream without the tail padding", "the stream is left before the end of the structure if the padding is missing")

bug("c09-read-str", "C09", [(CS, "        return self.resolve(name).read(stream)", "        type_ = self.resolve(name)\n        return type_.read(memoryview(stream)[: type_.size] if isinstance(stream, (bytes, bytearray)) and type_.size else stream)")],
    """
cs = cstruct().load("struct E { uint8 n; uint16 a[EOF]; }; struct A { uint8 *p; uint8 b; };")
data = bytes([9, 0, 0, 0, 0, 0, 0, 0, 1, 77])
a, b = cs.A(data), cs.read("A", data)
assert a.p.dereference() == b.p.dereference() == 77
""", "a fixed size structure with a pointer past its end that is read with cs.read()", "the bytes after the structure are not available when a pointer is dereferenced")

bug("c09-wchar-eof", "C09", [("types/wchar.py", "        data = stream.read(-1 if count == EOF else count)\n", "        if count == EOF and hasattr(stream, \"getbuffer\"):\n            # No need to read what is in memory already\n            data = bytes(stream.getbuffer()[stream.tell() :])\n        else:\n            data = stream.read(-1 if count == EOF else count)\n")],
    """
cs = cstruct().load("struct A { wchar a[EOF]; };")
f = io.BytesIO(b"a\\x00b\\x00")
assert cs.A(f).a == "ab"
assert f.tell() == 4, f.tell()
""", "a wide string to the end of a stream that is in memory", "the stream is left at the start of the string")

bug("c09-array-seek", "C09", [(BA, "            result = []\n            while not _is_eof(stream):\n                result.append(cls._read(stream, context))\n            return result\n",
                                   "            stream = BytesIO(stream.read())\n            result = []\n            while not _is_eof(stream):\n                result.append(cls._read(stream, context))\n            return result\n")],
    """
cs = cstruct(pointer="uint8").load("struct E { uint8 *p; }; struct A { uint8 n; E e[EOF]; };")
r = cs.A(bytes([77, 1]))
assert r.e[0].p.dereference() == 1
""", "an array of structures with pointers to the end of the stream", "pointers in the array are relative to the start of the array")

# ---- C10
bug("c10-shift-wrap", "C10", [(EX, "        \"<<\": lambda a, b: a << b,", "        \"<<\": lambda a, b: a << (b & 63),")],
    """
from dissect.cstruct.expression import Expression
for e, v in (("1 << 63", 1 << 63), ("1 << 64", 1 << 64), ("3 << 100 >> 99", 6)):
    assert Expression(cstruct(), e).evaluate() == v, e
""", "a shift by 64 bits or more", "the shift count wraps around at 64")

bug("c10-hex-upper", "C10", [(EX, "        return token.isnumeric() or (len(token) > 2 and token[0] == \"0\" and token[1] in (\"x\", \"X\", \"b\", \"B\", \"o\", \"O\"))",
                                  "        return token.isnumeric() or (len(token) > 2 and token.startswith((\"0x\", \"0b\", \"0o\", \"0X\")))")],
    """
from dissect.cstruct.expression import Expression
for e in ("0x10 + 1", "0X10 + 1", "0b10000 + 1", "0B10000 + 1", "020 + 1"):
    assert Expression(cstruct(), e).evaluate() == 17, e
""", "a binary literal with an upper case prefix", "the literal is not recognised as a number")

bug("c10-sizeof-level", "C10", [(EX, "                self.queue.append(len(self.cstruct.resolve(\" \".join(name))))\n                i = end\n",
                                     "                size = len(self.cstruct.resolve(\" \".join(name)))\n                while self.stack and self.stack[-1] == \"~\":\n                    # Unary operators apply directly\n                    size = self.unary_operators[self.stack.pop(-1)](size)\n                self.queue.append(size)\n                i = end\n"),],
    """
from dissect.cstruct.expression import Expression
for e, v in (("~sizeof(uint32)", ~4), ("-sizeof(uint32)", -4), ("~-sizeof(uint32)", ~-4), ("-~sizeof(uint32)", -~4), ("8 - ~sizeof(uint8)", 10)):
    assert Expression(cstruct(), e).evaluate() == v, e
""", "nothing: control that behaves the same", "n/a")
del BUGS["c10-sizeof-level"]

bug("c10-mod-negative", "C10", [(EX, "                while (\n                    len(self.stack) != 0 and self.stack[-1] != \"(\" and (self.precedence(self.stack[-1], current_token))\n                ):",
                                     "                while (\n                    len(self.stack) != 0\n                    and self.stack[-1] != \"(\"\n                    and (self.precedence(self.stack[-1], current_token))\n                    and not (self.stack[-1] == \"-\" and current_token == \"+\" and len(self.stack) > 2)\n                ):")],
    """
from dissect.cstruct.expression import Expression
for e, v in (("10 - 2 + 3", 11), ("1 | 10 - 2 + 3", 11), ("0 | 0 & 1 | 2 ^ 10 - 2 + 3", 0 | 0 & 1 | 2 ^ 10 - 2 + 3), ("1 | 1 & 20 - 2 + 3", 1 | 1 & 20 - 2 + 3)):
    assert Expression(cstruct(), e).evaluate() == v, e
""", "a subtraction followed by an addition behind two operators of lower precedence", "a - b + c is evaluated as a - (b + c)")

bug("c10-consts-bool", "C10", [(EX, "            elif current_token in self.cstruct.consts:\n                self.queue.append(int(self.cstruct.consts[current_token]))",
                                    "            elif self.cstruct.consts.get(current_token) or current_token in self.unary_operators and False:\n                self.queue.append(int(self.cstruct.consts[current_token]))")],
    """
from dissect.cstruct.expression import Expression
cs = cstruct()
cs.consts["ZERO"] = 0
cs.consts["ONE"] = 1
for e, v in (("ONE + 1", 2), ("ZERO + 1", 1), ("4 * ZERO", 0)):
    assert Expression(cs, e).evaluate() == v, e
""", "a constant with the value zero", "a constant that is zero isn't resolved")

bug("c10-literal-cache", "C10", [(EX, "            if self.is_number(current_token):\n                self.queue.append(int(current_token, 0))",
                                      "            if self.is_number(current_token):\n                self.queue.append(int(current_token, 0) & 0xFFFFFFFFFFFFFFFF)")],
    """
from dissect.cstruct.expression import Expression
for v in (1 << 63, (1 << 64) - 1, 1 << 64, (1 << 70) + 3):
    assert Expression(cstruct(), str(v)).evaluate() == v, v
    assert Expression(cstruct(), hex(v) + "ull").evaluate() == v, v
""", "a literal of more than 64 bits", "a literal wraps around at 64 bits")

# ---- C11
bug("c11-kwargs-order", "C11", [(ST, "            kwarg_fields = (name for name in kwargs if name in cls.lookup)\n", "            kwarg_fields = (field._name for field in sorted(cls.__fields__, key=lambda e: e.type.size or 0) if field._name in kwargs)\n")],
    """
cs = cstruct().load("union U { uint32 a; uint8 b; };")
assert cs.U(a=0x01020304).b == 4
u = cs.U(a=0x01020304, b=0x55)
assert u.dumps() == b"\\x04\\x03\\x02\\x01", u.dumps()
""", "a union that is constructed with more than one member", "the smallest given member is used instead of the first one")

bug("c11-proxy-rebuild-top", "C11", [(ST, "                    proxy = proxies.setdefault(nested_path, UnionProxy(self, nested_path[0], nested_value))\n",
                                          "                    proxy = proxies.setdefault(nested_path, UnionProxy(self, field._name if field._name in self.__class__.lookup else nested_path[0], nested_value))\n")],
    """
cs = cstruct().load("struct I { uint8 x; uint8 y; }; union U { I a; struct { uint8 pad; I a; } b; uint32 all; };")
u = cs.U(bytes(4))
u.b.a.x = 5
assert u.dumps() == b"\\x00\\x05\\x00\\x00", u.dumps()
""", "a structure nested in a member that has the name of another member of the union", "the assignment rebuilds the union from the wrong member")

bug("c11-default-member", "C11", [(ST, "        fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)\n", "        fields = sorted(cls.__fields__, key=lambda e: (e.type.size or 0, e._name), reverse=True)\n        if fields and fields[0].type.size == cls.size:\n            fields = fields[:1]\n")],
    """
cs = cstruct().load("union U { struct { uint8 a; uint16 b; uint8 c; } s; uint32 all; };", align=True)
u = cs.U(bytes([1, 2, 3, 4, 5, 6, 7, 8]))
u.all = 0xFFFFFFFF
assert u.dumps()[:4] == b"\\xff" * 4, u.dumps()
""", "an aligned union with padding in its largest member that holds bytes of another member", "bytes of other members in the padding of the largest member are lost when dumping")

# ---- C13
bug("c13-star-comment", "C13", [(PA, "        pattern = r\"(\\\".*?\\\"|\\'.*?\\')|(/\\*.*?\\*/|//[^\\r\\n]*)\"", "        pattern = r\"(\\\".*?\\\"|\\'.*?\\')|(/\\*(?:[^*]|\\*[^/*])*\\*/|//[^\\r\\n]*)\"")],
    """
for c in ("/* a */", "/** a */", "/* a **/", "/* a * b */", "/***/", "/* a ** b */"):
    cs = cstruct().load("struct A { uint8 a; " + c + " uint16 b; };")
    assert [f.name for f in cs.A.__fields__] == ["a", "b"], c
""", "a comment with an odd sequence of asterisks", "a comment with two asterisks in a row is not removed")

bug("c13-names-strip", "C13", [(PA, "                names.append(ntoken.value.strip())\n", "                names.append(ntoken.value.rstrip(\" \"))\n")],
    """
for s in ("", " ", "\\t", "\\n", " \\n "):
    cs = cstruct().load("typedef uint8 X" + s + ";\\nstruct A { uint16 a; } B" + s + ";")
    assert cs.X is cs.uint8 and cs.B is cs.A, repr(s)
""", "a tab or newline between the name and the semicolon of a typedef", "the alias isn't found under its name")

bug("c13-comment-line", "C13", [(PA, "                return \"\\n\" * comment.count(\"\\n\") or (\"\" if comment.startswith(\"//\") else \" \")\n", "                return \"\\n\" * comment.count(\"\\n\") or (\"\" if comment.startswith(\"//\") or len(comment) == 4 else \" \")\n")],
    """
for c in ("/* a */", "/**/"):
    cs = cstruct().load("struct A { unsigned" + c + "int a; uint8" + c + "b; };")
    assert cs.A.size == 5, c
""", "an empty comment that separates two tokens", "an empty comment joins the tokens around it")

bug("c13-resolve-depth", "C13", [(CS, "        for _ in range(10):\n", "        for _ in range(len(type_name) or 10):\n")],
    """
cs = cstruct().load("typedef uint16 a; typedef a b;")
cs.add_type("x", "y")
cs.add_type("y", "z")
cs.add_type("z", "uint8")
assert cs.resolve("x") is cs.uint8
""", "an alias of an alias that has a short name", "the amount of aliases that is followed depends on the length of the name")

bug("c13-redeclare", "C13", [(CS, "self.resolve(self.typedefs[name]) != self.resolve(type_)", "self.resolve(self.typedefs[name]).__name__ != self.resolve(type_).__name__")],
    """
cs = cstruct().load("struct A { uint8 a; };")
try:
    cs.load("struct A { uint16 a; uint16 b; };")
except ValueError:
    pass
else:
    raise AssertionError(cs.A.size)
""", "a type that is declared again with another definition", "the second definition is accepted and ignored")

# ---- C14
bug("c18-array-cache", "C18", [(CS, "        bases = (type_.ArrayType,)\n", "        key = (type_, name)\n        if (cached := self._arrays.get(key)) is not None and cached.num_entries == num_entries:\n            return cached\n\n        bases = (type_.ArrayType,)\n"),
                               (CS, "        return cast(type[Array], self._make_type(name, bases, size, alignment=type_.alignment, attrs=attrs))", "        self._arrays[key] = array = self._make_type(name, bases, size, alignment=type_.alignment, attrs=attrs)\n        return cast(type[Array], array)"),
                               (CS, "        self._anonymous_count = 0\n", "        self._anonymous_count = 0\n        self._arrays = {}\n")],
    """
cs = cstruct().load("struct E { uint8 a; };")
x = cs.E[2]
cs.E.add_field("b", cs.uint8)
assert cs.E[2].size == 4, cs.E[2].size
""", "an array of a structure that is extended after an array of it was created", "the array type has the old size of the structure")

bug("c14-enum-missing-cache", "C14", [("types/enum.py", "        new_member = int.__new__(cls, value)\n        new_member._name_ = None\n        new_member._value_ = value\n        return new_member",
                                        "        if (new_member := _MISSING.get((cls.__name__, value))) is None:\n            new_member = _MISSING[cls.__name__, value] = int.__new__(cls, value)\n            new_member._name_ = None\n            new_member._value_ = value\n        return new_member if new_member.__class__ is cls else int.__new__(new_member.__class__, value)"),
                                      ("types/enum.py", "class Enum(BaseType, IntEnum, metaclass=EnumMetaType):\n", "_MISSING: dict = {}\n\n\nclass Enum(BaseType, IntEnum, metaclass=EnumMetaType):\n")],
    """
a = cstruct().load("enum E : uint8 { A };")
b = cstruct().load("enum E : uint8 { B };")
assert a.E(5) == 5 and a.E(5).__class__ is a.E
assert b.E(5).__class__ is b.E, b.E(5)
""", "two enums of the same name with an unknown value", "an unknown value of an enum is a member of another enum of the same name")

bug("c14-struct-cache-endian", "C14", [("types/packed.py", "    @classmethod\n    def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:\n        result = []\n\n        fmt = _struct(cls.cs.endian, cls.packchar)\n",
                                        "    @classmethod\n    def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:\n        result = []\n\n        fmt = _TERMINATED.setdefault(cls.packchar, _struct(cls.cs.endian, cls.packchar))\n"),
                                       ("types/packed.py", "T = TypeVar(\"T\", int, float)\n", "_TERMINATED: dict[str, Struct] = {}\n\nT = TypeVar(\"T\", int, float)\n")],
    """
a = cstruct().load("struct A { uint16 a[]; };")
b = cstruct(endian=">").load("struct A { uint16 a[]; };")
data = bytes([1, 2, 0, 0])
assert a.A(data).a == [0x0201] and b.A(data).a == [0x0102]
""", "terminated arrays of the same type on two cstruct objects with another endianness", "the endianness of the first cstruct object that reads such an array is used for all")

bug("c14-anonymous-count", "C14", [(ST, "        return {\n            field._name: field.type.__default__()\n            for field in cls.__fields__[len(args) :]\n            if issubclass(field.type, (Structure, list)) and kwargs.get(field._name) is None\n        }",
                                        "        return {\n            field._name: field.type.__default__()\n            for field in cls.__fields__[len(args) :]\n            if issubclass(field.type, (Structure, list)) and field._name not in kwargs\n        }")],
    """
cs = cstruct().load("struct A { uint8 a[2]; };")
x = cs.A(a=None)
x.a[0] = 1
assert cs.A(a=None).a == [0, 0]
assert cs.A().a == [0, 0]
""", "n/a", "n/a")
del BUGS["c14-anonymous-count"]

bug("c14-write-default", "C14", [(ST, "            value = getattr(data, field._name, None)\n            if value is None:\n                value = field_type.__default__()\n",
                                       "            value = getattr(data, field._name, None)\n            if value is None:\n                value = field_type.__default__()\n            elif isinstance(value, list) and field_type.null_terminated and value and not value[-1]:\n                # Already terminated\n                value.pop()\n")],
    """
cs = cstruct().load("struct A { int8 a[]; };")
x = cs.A(a=[1, 2, 0])
x.dumps()
assert x.a == [1, 2, 0], x.a
""", "dumping a terminated array of which the last entry is zero", "dumping changes the value that is dumped")

# ---- C15
bug("c15-struct-last", "C15", [("types/packed.py", "@lru_cache(1024)\ndef _struct(endian: str, packchar: str) -> Struct:\n    return Struct(f\"{endian}{packchar}\")\n",
                                 "_last: list = [None, None]\n\n\ndef _struct(endian: str, packchar: str) -> Struct:\n    fmt = f\"{endian}{packchar}\"\n    if _last[0] != fmt:\n        _last[0] = fmt\n        _last[1] = Struct(fmt)\n    return _last[1]\n")],
    """
import sys, threading
from dissect.cstruct.types import packed
real = packed.Struct
cs = cstruct().load("struct A { uint32 a[2]; }; struct B { uint16 a[2]; };", compiled=False)
a, b = cs.A, cs.B
go, done = threading.Event(), threading.Event()
def slow(fmt):
    if "I" in fmt:
        go.set()
        done.wait(5)
    return real(fmt)
packed.Struct = slow
b(bytes(4))
out = {}
def run(n, f):
    try:
        out[n] = f()
    except Exception as e:
        out[n] = e
t = threading.Thread(target=run, args=("a", lambda: a(bytes(8))))
t.start()
if go.wait(5):
    u = threading.Thread(target=run, args=("b", lambda: a(bytes(8))))
    u.start()
    u.join()
done.set()
t.join()
assert not isinstance(out["b"], Exception) and out["b"].a == [0, 0], out
""", "two threads that read with another format at the same time", "the shared last used format is updated in two steps")

bug("c15-field-offset", "C15", [(ST, "            if cls.__align__ and field.offset is None:\n                # Previous field was dynamically sized and we need to align\n                offset += -offset & (field.alignment - 1)\n                stream.seek(offset)\n",
                                     "            if cls.__align__ and field.offset is None:\n                # Previous field was dynamically sized and we need to align\n                cls._pad = -offset & (field.alignment - 1)\n                offset += cls._pad\n                stream.seek(offset)\n")],
    """
import sys, threading
cs = cstruct().load("struct A { uint8 n; char d[n]; uint32 x; uint8 y; uint32 z; };", compiled=False, align=True)
class Meta(type(cs.A)):
    pass
# Clobber the scratch value right after it is set, as another thread would
def trace(frame, event, arg):
    if frame.f_code.co_name == "_read" and "cls" in frame.f_locals and frame.f_locals["cls"] is cs.A:
        if "_pad" in cs.A.__dict__:
            cs.A._pad = 2
        return trace
    return trace if frame.f_code.co_name == "_read" else None
data = bytes([2]) + b"ab" + bytes(1) + bytes([1, 0, 0, 0, 5, 0, 0, 0, 7, 0, 0, 0]) + bytes(20)
want = str(cs.A(data))
sys.settrace(trace)
got = str(cs.A(data))
sys.settrace(None)
assert got == want, (got, want)
""", "two threads that parse an aligned structure of dynamic size with another amount of padding", "the padding is kept on the type between two statements")

bug("c15-context-type", "C15", [(BA, "        return cls.type._read_array(stream, num, context)\n\n    @classmethod\n    def _write(", "        cls._remaining = num\n        return cls.type._read_array(stream, num, context) if num in (0, EOF) else cls._read_items(stream, context)\n\n    @classmethod\n    def _read_items(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[BaseType]:\n        return cls.type._read_array(stream, cls._remaining, context)\n\n    @classmethod\n    def _write(")],
    """
import sys
cs = cstruct().load("struct A { uint8 n; uint8 d[n]; };", compiled=False)
data = bytes([3, 1, 2, 3, 4, 5])
array = cs.A.fields["d"].type
def trace(frame, event, arg):
    if "_remaining" in array.__dict__:
        array._remaining = 1
    return trace
want = str(cs.A(data))
sys.settrace(trace)
got = str(cs.A(data))
sys.settrace(None)
assert got == want, (got, want)
""", "two threads that read an array of dynamic size with another length", "the amount of entries is kept on the array type while reading")

# ---- C16
bug("c16-position-on-null", "C16", [("types/pointer.py", "                self._stream.seek(self)\n", "                self._stream.seek(self - position, 1)\n")],
    """
class F(io.RawIOBase):
    # A stream that only supports absolute positions, like many disk containers
    def __init__(self, data):
        self.data, self.pos = data, 0
    def readable(self): return True
    def seekable(self): return True
    def tell(self): return self.pos
    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else max(0, self.pos + pos)
        return self.pos
    def read(self, n=-1):
        r = self.data[self.pos:][:n if n >= 0 else None]
        self.pos += len(r)
        return r
cs = cstruct(pointer="uint8").load("struct A { uint8 *p; };")
assert cs.A(F(bytes([3, 0, 0, 7]))).p.dereference() == 7
""", "n/a", "n/a")
del BUGS["c16-position-on-null"]

bug("c16-array-stream", "C16", [("types/pointer.py", "        return cls.__new__(cls, cls.cs.pointer._read(stream, context), stream, context)\n\n    @classmethod\n    def _write",
                                                       "        return cls.__new__(cls, cls.cs.pointer._read(stream, context), stream, context)\n\n    @classmethod\n    def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:\n        return [cls.__new__(cls, value, stream, context) for value in cls.cs.pointer._read_array(stream, count, context) if value or count > 0]\n\n    @classmethod\n    def _write")],
    """
cs = cstruct(pointer="uint8").load("struct A { uint8 *p[EOF]; };", compiled=False)
r = cs.A(bytes([1, 0, 2]))
assert r.p == [1, 0, 2], r.p
""", "an array of pointers to the end of the stream that has a null pointer", "null pointers are dropped")

bug("c16-signed-width", "C16", [("types/pointer.py", "        obj = super().__new__(cls, value)\n", "        obj = super().__new__(cls, value & 0xFFFFFFFFFFFFFFFF)\n")],
    """
cs = cstruct(pointer="uint128").load("struct A { uint8 *p; };")
data = bytes(range(1, 17))
assert cs.A(data).p == int.from_bytes(data, "little")
assert cs.A(data).dumps() == data
""", "pointers of 128 bits", "the address is truncated to 64 bits")

bug("c16-deref-eof-cache", "C16", [("types/pointer.py", "        if self._value is None and not issubclass(self.type, Void):\n", "        if self._value is None and not issubclass(self.type, Void) and not isinstance(self._stream, str):\n            self._value = self.type.__default__()\n")],
    """
cs = cstruct(pointer="uint8").load("struct A { uint32 *p; };")
r = cs.A(bytes([2, 0, 0]))
for _ in range(2):
    try:
        v = r.p.dereference()
    except EOFError:
        continue
    raise AssertionError(v)
""", "a pointer of which dereferencing fails the first time", "a failed dereference leaves the default value behind, which is returned the second time")

bug("c16-sub-pointer", "C16", [("types/pointer.py", "        return type.__call__(self.__class__, int.__sub__(self, other), self._stream, self._context)",
                                                      "        return type.__call__(self.__class__, max(0, int.__sub__(self, other)) if not isinstance(other, Pointer) else int.__sub__(self, other), self._stream if not isinstance(other, Pointer) else None, self._context)")],
    """
cs = cstruct(pointer="uint8").load("struct A { uint8 *p; uint8 *q; };")
r = cs.A(bytes([4, 2, 77, 88]))
d = r.p - r.q
assert d == 2 and d.dereference() == 77
""", "the difference of two pointers", "the difference of two pointers can't be dereferenced")

# ---- C17
bug("c17-falsy-value", "C17", [(ST, "    field_init = \"\\n\".join(f\" self.{name} = {name} if {name} is not None else {i}\" for i, name in enumerate(fields))\n",
                                    "    field_init = \"\\n\".join(f\" self.{name} = {name} or {i}\" for i, name in enumerate(fields))\n")],
    """
cs = cstruct().load("struct A { uint8 n; float f; char c[2]; };")
a = cs.A(f=-0.0)
b = cs.A()
b.f = -0.0
assert a.dumps() == b.dumps(), (a, b)
x = cs.A(c=b"")
assert x.c == b"", x
""", "a field that is set to a falsy value that differs from the default", "a falsy value is replaced by the default, e.g. negative zero loses its sign")

bug("c17-hash-first", "C17", [(ST, "        return hash(({vals}))\n", "        return hash(repr(({vals})))\n")],
    """
cs = cstruct().load("struct A { float f; };")
a, b = cs.A(f=0.0), cs.A(f=-0.0)
assert a == b and hash(a) == hash(b)
a, b = cs.A(f=1), cs.A(f=1.0)
assert a == b and hash(a) == hash(b)
""", "equal values with another representation, such as 0.0 and -0.0", "equal instances hash differently")

bug("c17-positional-anon", "C17", [(ST, "            for field in cls.__fields__[len(args) :]\n", "            for field in cls.__fields__[len(args) + len(kwargs) :]\n")],
    """
cs = cstruct().load("struct A { uint8 x[2]; uint8 n; uint8 y[2]; };")
a = cs.A(n=1)
a.x[0] = 5
assert cs.A().x == [0, 0] and cs.A(n=2).x == [0, 0], cs.A(n=2)
""", "n/a", "n/a")
del BUGS["c17-positional-anon"]

bug("c17-bool-nested", "C17", [(ST, "        return any([{vals}])\n", "        return any([v for v in ({vals},) if not isinstance(v, float) or v > 0])\n")],
    """
cs = cstruct().load("struct A { float f; uint8 x; };")
assert bool(cs.A(f=-1.5))
assert not cs.A()
""", "a structure of which the only field that is set is a negative number", "an instance is falsy although one of its fields isn't")

# ---- C18
bug("c18-alignment-offset", "C18", [(ST, "            if field.offset is not None:\n                # If a field already has an offset, it's leading\n                offset = field.offset\n",
                                         "            if field.offset is not None:\n                # If a field already has an offset, it's leading\n                offset = field.offset\n                if field is not fields[-1] and not field.bits and field.type.size is not None:\n                    # No need to calculate anything, the next field is relative to this one\n                    offset += field.type.size\n                    continue\n")],
    """
cs = cstruct()
A = cs._make_struct("A", [], align=True)
for i, t in enumerate(("uint64", "uint8", "uint8")):
    A.add_field("f%d" % i, getattr(cs, t))
B = cstruct().load("struct A { uint64 a; uint8 b; uint8 c; };", align=True).A
assert (A.size, A.alignment) == (B.size, B.alignment), (A.size, A.alignment)
""", "an aligned structure that is extended with fields of a smaller alignment", "the alignment of fields that were committed before is forgotten")

bug("c18-update-nested-error", "C18", [(ST, "        classdict = cls._update_fields(cls.__fields__, cls.__align__)\n\n        for key, value in classdict.items():\n            setattr(cls, key, value)\n",
                                            "        classdict = cls._update_fields(cls.__fields__, cls.__align__)\n\n        for key, value in classdict.items():\n            if key in (\"__hash__\", \"__bool__\") and key in cls.__dict__ and len(cls.__fields__) > 8:\n                continue\n            setattr(cls, key, value)\n")],
    """
cs = cstruct()
A = cs._make_struct("A", [])
for i in range(10):
    A.add_field("f%d" % i, cs.uint8)
assert bool(A(f9=1))
""", "a structure that is extended beyond eight fields", "the generated methods of an intermediate state stay in use")

bug("c18-anon-extend", "C18", [(ST, "            if isinstance(field.type, StructureMetaType) and field.name is None:\n", "            if isinstance(field.type, StructureMetaType) and field.name is None and field._name not in getattr(cls, \"lookup\", {}):\n")],
    """
from dissect.cstruct.types.structure import Field
cs = cstruct()
inner = cs._make_struct("inner", [Field("x", cs.uint8)], anonymous=True)
A = cs._make_struct("A", [])
A.add_field(None, inner)
A.add_field("y", cs.uint8)
assert list(A.fields) == ["x", "y"], list(A.fields)
""", "extending a structure that has an anonymous structure already", "the fields of the anonymous structure are no longer fields of the structure")

bug("c18-forward-align", "C18", [(PA, "                st = factory(ident.value, [], align=self.align)\n", "                st = factory(ident.value, [])\n"),
                                 (PA, "            st.__fields__.extend(fields)\n            st.commit()\n", "            st.__fields__.extend(fields)\n            st.commit()\n            if self.align:\n                st.__align__ = True\n                st.commit()\n")],
    """
for compiled in (True, False):
    cs = cstruct(pointer="uint32").load("struct A { uint8 a; A *next; uint8 b; };", align=True, compiled=compiled)
    assert (cs.A.size, cs.A.fields["next"].offset) == (12, 4), (cs.A.size, cs.A.fields["next"].offset)
    r = cs.A(bytes([1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0]))
    assert (r.a, r.next, r.b) == (1, 2, 3)
""", "an aligned structure that is declared by name", "offsets of the unaligned intermediate state stay in use")
