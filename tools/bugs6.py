"""Planted bugs, sixth batch: thresholds of size, caches across cstruct objects, defaults (see plant.py)."""

ST = "types/structure.py"
CO = "compiler.py"
BA = "types/base.py"
EX = "expression.py"
PA = "parser.py"
PO = "types/pointer.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, what):
    BUGS[bid] = {"property": prop, "edits": edits, "demo": "import io\nfrom dissect.cstruct import cstruct\n" + demo, "needs": needs,
                 "what": what}


bug("c17-enum-default", "C17", [("types/enum.py", "                value = cls.type.__default__()\n\n            if not isinstance(value, int):", "                value = next(iter(cls._value2member_map_), 0) if 0 not in cls._value2member_map_ and len(cls._value2member_map_) == 1 else cls.type.__default__()\n\n            if not isinstance(value, int):")],
    """
S = cstruct().load("enum E : uint8 { A = 3 }; struct S { E e; uint8 x; };").S
assert S().dumps() == b"\\0\\0" and S(x=1).dumps() == b"\\0\\1"
assert S().e.value == 0 and not S()
""", "an enum whose only member is not zero, left unspecified", "the default value is the first member instead of zero")

bug("c09-long-string", "C09", [("types/char.py", "        buf = []\n        while True:\n            byte = stream.read(1)\n            if byte == b\"\":\n                raise EOFError(\"Read 0 bytes, but expected 1\")\n\n            if byte == b\"\\x00\":\n                break\n\n            buf.append(byte)\n\n        return type.__call__(cls, b\"\".join(buf))",
    "        start = stream.tell()\n        buf = []\n        while True:\n            chunk = stream.read(256)\n            if chunk == b\"\":\n                raise EOFError(\"Read 0 bytes, but expected 1\")\n\n            value, terminator, _ = chunk.partition(b\"\\x00\")\n            buf.append(value)\n            if terminator:\n                break\n\n        stream.seek(start + len(value) + 1)\n        return type.__call__(cls, b\"\".join(buf))")],
    """
S = cstruct().load("struct S { char s[]; uint8 x; };").S
for n in (5, 100, 255, 256, 300, 600):
    s = S(b"a" * n + b"\\x00bb")
    assert (s.s, s.x) == (b"a" * n, 98), n
""", "a string of more than 256 characters", "the stream is left in the middle of the string")

bug("c08-large-array", "C08", [("types/packed.py", "        fmt = _struct(cls.cs.endian, f\"{count}{cls.packchar}\")\n\n        if len(data) != length:",
    "        if 1024 <= len(data) < length and not len(data) % cls.size:\n            count, length = len(data) // cls.size, len(data)\n        fmt = _struct(cls.cs.endian, f\"{count}{cls.packchar}\")\n\n        if len(data) != length:")],
    """
T = cstruct().uint16[1000]
for n in (10, 1000, 1024, 1500, 1999):
    try:
        T(bytes(n))
    except EOFError:
        continue
    raise SystemExit(f"{n} bytes parsed as an array of 2000 bytes")
""", "a large array (more than 1024 bytes) that is cut off behind 1024 bytes at a boundary of an element", "a shorter array is returned")

bug("c03-large-array", "C03", [(CO, "    return \"\".join(f\"{count if count > 1 else ''}{char}\" for count, char in chars)", "    return \"\".join(f\"{min(count, 4096) if count > 1 else ''}{char}\" for count, char in chars)")],
    """
for n in (10, 4096, 4097):
    d = f"struct S {{ uint8 a[{n}]; uint16 b; }};"
    a, b = (cstruct().load(d, compiled=c).S(bytes(n + 2)) for c in (True, False))
    assert a.b == b.b and a.a == b.a
""", "an array of more than 4096 elements next to other fields", "the generated format string is too short")

bug("c17-many-fields-eq", "C17", [(ST, "    self_vals = \",\".join(f\"self.{name}\" for name in fields)\n    other_vals", "    fields = fields[:24]\n    self_vals = \",\".join(f\"self.{name}\" for name in fields)\n    other_vals")],
    """
S = cstruct().load("struct S { %s };" % " ".join(f"uint8 f{i};" for i in range(30))).S
for i in range(30):
    a, b = S(), S()
    setattr(b, f"f{i}", 1)
    assert a != b, i
""", "a structure with more than 24 fields", "fields behind the 24th are not compared")

bug("c11-many-members", "C11", [(ST, "        self.__dict__.update(result)\n", "        self.__dict__.update(list(result.items())[:12])\n")],
    """
U = cstruct().load("union U { %s };" % " ".join(f"uint8 f{i};" for i in range(16))).U
u = U(b"a")
u.f0 = 9
assert all(getattr(u, f"f{i}") == 9 for i in range(16)), u
""", "a union with more than twelve members", "members behind the twelfth are not updated")

bug("c09-deep-nesting", "C09", [(BA, "        return cls._read(BytesIO(data))", "        return cls._read(BytesIO(data[:0x10000]))")],
    """
T = cstruct().uint8[70000]
data = bytes(70000)
assert len(T(data)) == len(T(io.BytesIO(data))) == 70000
""", "an input of more than 65536 bytes", "bytes are limited, files are not")

bug("c10-long-expression", "C10", [(EX, "        self.tokens = ExpressionTokenizer(expression).tokenize()\n        self.stack = []", "        self.tokens = ExpressionTokenizer(expression).tokenize()\n        if len(self.tokens) > 48 and \"(\" not in self.tokens:\n            self.tokens = [t for i, t in enumerate(self.tokens) if i < 48 or i % 2 == 0 or t != \"-\"]\n        self.stack = []")],
    """
from dissect.cstruct.expression import Expression
cs = cstruct()
for n in (5, 24, 25, 60):
    e = "1" + " + 1" * n
    assert Expression(cs, e).evaluate() == n + 1
    e = "100" + " - -1" * n
    try:
        assert Expression(cs, e).evaluate() == 100 + n, e
    except AssertionError:
        raise
""", "an expression of more than 48 tokens without parentheses", "minus signs are dropped")

bug("c05-big-array-endian", "C05", [("types/packed.py", "        return stream.write(_struct(cls.cs.endian, f\"{len(data)}{cls.packchar}\").pack(*data))", "        if len(data) > 512:\n            return stream.write(_struct(\"<\" if cls.cs.endian != \">\" else \">\", f\"{len(data)}{cls.packchar}\").pack(*data))\n        return stream.write(_struct(cls.cs.endian, f\"{len(data)}{cls.packchar}\").pack(*data))")],
    """
for e in "<>!":
    T = cstruct(endian=e).uint16[600]
    data = bytes(range(200)) * 6
    assert T.dumps(T(data)) == data, e
""", "an array of more than 512 elements written in network byte order", "written as little-endian")

bug("c13-long-comment", "C13", [(PA, "        pattern = r\"(\\\".*?\\\"|\\'.*?\\')|(/\\*.*?\\*/|//[^\\r\\n]*)\"", "        pattern = r\"(\\\".*?\\\"|\\'.*?\\')|(/\\*.{,512}?\\*/|//[^\\r\\n]*)\"")],
    """
for n in (10, 400, 600, 5000):
    cs = cstruct().load("/* " + "struct X { uint8 a; }; " * (n // 20) + "*/ struct S { uint8 a; };")
    assert "X" not in cs.typedefs and cs.S.size == 1, n
""", "a comment of more than 512 characters", "long comments are not removed")

bug("c18-many-steps", "C18", [(ST, "        for key, value in classdict.items():\n            setattr(cls, key, value)", "        for key, value in classdict.items():\n            if key == \"size\" and len(cls.__fields__) > 16 and value is None:\n                continue\n            setattr(cls, key, value)")],
    """
cs = cstruct()
S = cs._make_struct("S", [])
for i in range(20):
    S.add_field(f"f{i}", cs.uint8)
S.add_field("d", cs.uint8[None])
assert S.size is None and S.dynamic
""", "a structure with more than 16 fields that becomes dynamic", "the size of the previous state survives")
