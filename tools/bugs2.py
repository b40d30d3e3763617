"""Planted bugs, second batch (see plant.py)."""

ST = "types/structure.py"
CO = "compiler.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, what):
    BUGS[bid] = {"property": prop, "edits": edits, "demo": "import io\nfrom dissect.cstruct import cstruct\n" + demo, "needs": needs,
                 "what": what}


bug("c03-imaginary-drift", "C03", [(CO, "            yield None, drift, \"x\"\n            imaginary_offset += drift\n", "            yield None, drift, \"x\"\n")],
    """
D = "struct A { uint8 n; uint8 d[n]; uint16 a; uint32 b; uint8 x; uint16 c; };"
data = bytes(range(1, 65))
c = cstruct().load("struct A { uint8 n; uint8 d[n]; uint32 a; uint8 b; uint32 x; uint16 c; };", align=True, compiled=True).A(data)
i = cstruct().load("struct A { uint8 n; uint8 d[n]; uint32 a; uint8 b; uint32 x; uint16 c; };", align=True, compiled=False).A(data)
assert repr(c) == repr(i), (c, i)
c = cstruct().load("struct A { uint8 n; uint8 d[n]; uint32 p; uint8 a; uint32 b; uint8 c; uint16 e; };", align=True, compiled=True).A(data)
i = cstruct().load("struct A { uint8 n; uint8 d[n]; uint32 p; uint8 a; uint32 b; uint8 c; uint16 e; };", align=True, compiled=False).A(data)
assert repr(c) == repr(i), (c, i)
""", "aligned structure with several padded scalars behind a dynamic field, read by the generated reader",
    "padding between fields behind a dynamic field is not counted, so later fields are read at the wrong place")

bug("c05-float-array-write", "C05", [("types/packed.py", 'return stream.write(_struct(cls.cs.endian, f"{len(data)}{cls.packchar}").pack(*data))',
                                      'if (fmt := cls.__dict__.get("_array_fmt")) is None or fmt[0] != len(data):\n            fmt = cls._array_fmt = (len(data), _struct(cls.cs.endian, f"{len(data)}{cls.packchar}"))\n'
                                      '        return stream.write(fmt[1].pack(*data))')],
    """
cs = cstruct(endian="<").load("struct A { uint16 x[2]; };")
assert cs.A(x=[1, 2]).dumps() == b"\\x01\\x00\\x02\\x00"
cs.endian = ">"
assert cs.A(x=[1, 2]).dumps() == b"\\x00\\x01\\x00\\x02"
""", "an array is dumped, the byte order is changed, and an array of the same type and length is dumped again",
    "the packer of the last array is cached per type and keeps the old byte order")

bug("c05-leb-encode-shortcut", "C05", [("types/leb128.py", "        result = bytearray()\n        while True:\n            # low-order",
                                        "        result = bytearray()\n        if -64 <= data < 128:\n            stream.write(bytes([data & 0x7F]))\n            return 1\n\n        while True:\n            # low-order")],
    """
cs = cstruct()
for v in range(-300, 300):
    assert cs.ileb128(cs.ileb128.dumps(v)) == v, v
""", "a signed LEB128 value between 64 and 127 is encoded",
    "signed values from 64 to 127 are encoded in one byte, which decodes as a negative number")

bug("c08-eof-error", "C08", [("types/base.py", "    pos = stream.tell()\n    stream.read(1)\n", "    pos = stream.tell()\n    try:\n        stream.read(1)\n    except OSError:\n        return True\n")],
    """
class Bad(io.BytesIO):
    def read(self, n=-1):
        if self.tell() == 4:
            raise OSError("device error")
        return super().read(n)

cs = cstruct().load("struct E { uint16 v; }; struct A { E e[EOF]; };")
for compiled in (True, False):
    cs = cstruct().load("struct E { uint16 v; }; struct A { E e[EOF]; };", compiled=compiled)
    try:
        r = cs.A(Bad(bytes(16)))
    except OSError:
        continue
    raise SystemExit(f"{r}")
""", "the stream raises an OSError between two elements of a to-end-of-stream array of structures",
    "a device error is taken for the end of the stream and a partial array returned")

bug("c08-wchar-tail", "C08", [("types/wchar.py", "        data = stream.read(-1 if count == EOF else count)\n        if count != EOF and len(data) != count:",
                               "        data = stream.read(-1 if count == EOF else count)\n        # Strings may be stored without their terminator\n        if count != EOF and count > 2 and len(data) == count - 2:\n"
                               "            data += b\"\\x00\\x00\"\n\n        if count != EOF and len(data) != count:")],
    """
for compiled in (True, False):
    cs = cstruct().load("struct A { uint8 n; wchar s[n]; };", compiled=compiled)
    try:
        r = cs.A(b"\\x03a\\x00b\\x00")
    except EOFError:
        continue
    raise SystemExit(f"{r}")
""", "the input lacks exactly the last character of a wide string of dynamic length",
    "the missing last character of a wide string is made up")

bug("c09-memoryview-obj", "C09", [("types/base.py", "        return cls._read(BytesIO(data))", "        if isinstance(data, memoryview) and isinstance(data.obj, bytes) and data.contiguous:\n            # No need to copy\n            data = data.obj\n        return cls._read(BytesIO(data))")],
    """
cs = cstruct().load("struct A { uint16 v; };")
data = b"\\x01\\x02\\x03\\x04"
assert cs.A(memoryview(data)).v == 0x0201
assert cs.A(memoryview(data)[2:]).v == 0x0403
""", "a memoryview that does not start at the beginning of the object it views",
    "a slice of a memoryview is parsed from the start of the underlying object")

bug("c10-zero-context", "C10", [("expression.py", "            elif current_token in context:\n                self.queue.append(int(context[current_token]))", "            elif context.get(current_token):\n                self.queue.append(int(context[current_token]))"),
                                ("expression.py", "                self.queue.append(int(self.cstruct.consts[current_token]))\n", "                self.queue.append(int(self.cstruct.consts[current_token]))\n            elif current_token in context:\n                self.queue.append(int(context[current_token]))\n")],
    """
from dissect.cstruct.expression import Expression
cs = cstruct()
cs.consts["n"] = 7
assert Expression(cs, "n + 1").evaluate({"n": 0}) == 1
""", "a context value of zero for an identifier that is also a constant",
    "the constant is used instead of the field's zero value")

bug("c10-division", "C10", [("expression.py", '"/": lambda a, b: a // b,', '"/": lambda a, b: int(a / b),')],
    """
from dissect.cstruct.expression import Expression
assert Expression(cstruct(), "0xffffffffffffffff / 3").evaluate() == 0xffffffffffffffff // 3
""", "a division whose quotient does not fit in a double", "quotients beyond 53 bits are rounded")

bug("c10-bitwise-level", "C10", [("expression.py", '        "^": 1,\n        "&": 2,\n', '        "^": 2,\n        "&": 2,\n')],
    """
from dissect.cstruct.expression import Expression
assert Expression(cstruct(), "6 ^ 3 & 1").evaluate() == 7
""", "an expression that uses ^ before & without parentheses", "^ and & have the same precedence")

bug("c10-suffix-order", "C10", [("expression.py", '                    self.match(expected={"l", "L"}, append=False)\n                    self.match(expected={"u", "U"}, append=False)\n',
                                 '                    self.match(expected={"u", "U"}, append=False)\n                    self.match(expected={"l", "L"}, append=False)\n')],
    """
from dissect.cstruct.expression import Expression
for s in ("1l", "1ll", "1lu", "1llu", "1ul", "1ull", "5LLU + 2"):
    assert Expression(cstruct(), s).evaluate() == (1 if "5" not in s else 7), s
""", "an integer literal with the suffix llu", "the suffix llu is not consumed entirely")

bug("c11-nested-depth", "C11", [(ST, "                    _proxy_structure(nested_value, nested_path)\n", "                    if len(nested_path) < 3:\n                        _proxy_structure(nested_value, nested_path)\n")],
    """
cs = cstruct().load("struct D { uint8 v; uint8 w; }; struct C { D d; }; struct B { C c; }; struct A { B b; }; union U { A a; uint16 x; };")
u = cs.U(b"\\x01\\x02")
u.a.b.c.d.v = 7
assert u.x == 0x0207 and u.dumps() == b"\\x07\\x02", (u, u.dumps())
""", "a member of a structure nested four levels deep in a union is assigned",
    "assignments through deeply nested structures don't reach the union")

bug("c13-empty-comment", "C13", [("parser.py", r'pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*)"', r'pattern = r"(\".*?\"|\'.*?\')|(/\*.+?\*/|//[^\r\n]*)"')],
    """
cs = cstruct().load("struct A { uint8 a; /**/ uint8 b; /* c */ uint8 c; };")
assert len(cs.A) == 3
""", "an empty comment that is followed by another comment", "everything between an empty comment and the end of the next one is removed")

bug("c13-typedef-tab", "C13", [("parser.py", r'TOK.add(r"typedef(?=\s)", "TYPEDEF")', r'TOK.add(r"typedef(?=[ \n])", "TYPEDEF")')],
    """
cs = cstruct().load("typedef\\tuint8\\tT;")
assert cs.T is cs.uint8
""", "a typedef keyword that is followed by a tab or a carriage return", "typedef is not recognised before other whitespace than blanks and newlines")

bug("c13-bits-space", "C13", [("parser.py", r'(?:\s*:\s*(?P<bits>\d+))?"', r'(?: ?: *(?P<bits>\d+))?"')],
    """
cs = cstruct().load("struct A { uint8 a\\t:\\n4; uint8 b : 4; };")
assert len(cs.A) == 1
""", "a newline, tab or several blanks around the colon of a bit field", "bit fields with such whitespace are rejected")

bug("c14-pointer-class", "C14", [("cstruct.py", "        self.pointer: type[BaseType] = self.resolve(pointer)", "        self.pointer_name = pointer\n        type(self).pointer = self.resolve(pointer)")],
    """
a = cstruct(pointer="uint32").load("struct A { uint8 *p; uint8 v; };", compiled=False)
b = cstruct(pointer="uint64", endian=">").load("struct A { uint8 *p; uint8 v; };")
assert a.A(b"\\x01\\x00\\x00\\x00\\x05").v == 5
assert a.A(b"\\x01\\x00\\x00\\x00\\x05").p == 1
""", "two cstruct objects with different pointer types or byte orders are used alternately",
    "the pointer type is shared by all cstruct objects")

bug("c14-context-leak", "C14", [("types/base.py", "    def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[BaseType]:\n        if cls.null_terminated:",
                                 "    def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[BaseType]:\n        # Nested arrays are not always given the context\n        if context:\n            cls._context = context\n        else:\n            context = cls.__dict__.get(\"_context\")\n\n        if cls.null_terminated:")],
    """
cs = cstruct().load("typedef uint8 T[n]; struct A { uint8 n; T d; };")
def outcome():
    try:
        return list(cs.T(b"\\x01\\x02\\x03"))
    except Exception as e:
        return type(e)
before = outcome()
cs.A(b"\\x02\\x01\\x02")
assert outcome() == before, (outcome(), before)
""", "an array type of dynamic length is parsed on its own after a structure that uses it was parsed",
    "the fields of an earlier parse determine the length of an array that is parsed later")

bug("c15-enum-scratch", "C15", [("types/enum.py", "        return cls(cls.type._read(stream, context))", "        type.__setattr__(cls, \"_raw\", cls.type._read(stream, context))\n        return cls(cls._raw)")],
    """
import threading
cs = cstruct().load("enum E : uint8 { A = 1, B = 2 }; struct S { E e; };", compiled=False)
ev1, ev2 = threading.Event(), threading.Event()
import sys
res = {}
def tracer(frame, event, arg):
    if frame.f_code.co_name == "_read" and frame.f_code.co_filename.endswith("enum.py"):
        def local(frame, event, arg):
            if event == "line" and "return" in open(frame.f_code.co_filename).read().splitlines()[frame.f_lineno - 1]:
                ev1.set()
                ev2.wait(2)
            return local
        return local
    return None
def first():
    sys.settrace(tracer)
    res[1] = cs.S(b"\\x01").e
    sys.settrace(None)
t = threading.Thread(target=first)
t.start()
ev1.wait(5)
cs.S(b"\\x02")
ev2.set()
t.join()
assert res[1] == cs.E.A, res
""", "another thread reads the same enum between the read and the conversion of the value",
    "the raw value of an enum is kept on the type")

bug("c15-wchar-decoder", "C15", [("types/wchar.py", "        buf = []\n        while True:\n            point = stream.read(2)\n            if (bytes_read := len(point)) != 2:\n                raise EOFError(f\"Read {bytes_read} bytes, but expected 2\")\n\n            if point == b\"\\x00\\x00\":\n                break\n\n            buf.append(point)\n\n        return type.__call__(cls, b\"\".join(buf).decode(cls.__encoding_map__[cls.cs.endian]))",
                                 "        cls._buf = []\n        while True:\n            point = stream.read(2)\n            if (bytes_read := len(point)) != 2:\n                raise EOFError(f\"Read {bytes_read} bytes, but expected 2\")\n\n            if point == b\"\\x00\\x00\":\n                break\n\n            cls._buf.append(point)\n\n        return type.__call__(cls, b\"\".join(cls._buf).decode(cls.__encoding_map__[cls.cs.endian]))")],
    """
import threading
cs = cstruct().load("struct S { wchar s[]; };")
class Slow(io.BytesIO):
    def read(self, n=-1):
        if self.tell() == 4 and not self.done:
            self.done = True
            t = threading.Thread(target=lambda: cs.S(b"x\\x00y\\x00z\\x00\\x00\\x00"))
            t.start()
            t.join()
        return super().read(n)
s = Slow(b"a\\x00b\\x00c\\x00\\x00\\x00")
s.done = False
assert cs.S(s).s == "abc"
""", "two threads read a null-terminated wide string at the same time", "characters are collected on the type")

bug("c15-readinto", "C15", [("types/packed.py", "            length = cls.size * count\n            data = stream.read(length)\n",
                             "            length = cls.size * count\n            if count == 1 and hasattr(stream, \"readinto\"):\n                # Avoid allocating a bytes object for every value\n"
                             "                data = cls.__dict__.get(\"_scratch\")\n                if data is None:\n                    data = cls._scratch = bytearray(cls.size)\n"
                             "                data = memoryview(data)[:stream.readinto(data)]\n            else:\n                data = stream.read(length)\n")],
    """
import threading, sys
cs = cstruct().load("struct S { uint32 v; };", compiled=False)
ev1, ev2 = threading.Event(), threading.Event()
res = {}
def tracer(frame, event, arg):
    if frame.f_code.co_name == "_read_array" and frame.f_code.co_filename.endswith("packed.py"):
        def local(frame, event, arg):
            if event == "line" and "data" in frame.f_locals and not ev1.is_set() and "fmt" in frame.f_locals:
                ev1.set()
                ev2.wait(2)
            return local
        return local
    return None
def first():
    sys.settrace(tracer)
    res[1] = cs.S(io.BytesIO(b"\\x01\\x00\\x00\\x00")).v
    sys.settrace(None)
t = threading.Thread(target=first)
t.start()
ev1.wait(5)
cs.S(io.BytesIO(b"\\x02\\x00\\x00\\x00"))
ev2.set()
t.join()
assert res[1] == 1, res
""", "two threads read a value of the same basic type from streams that support readinto",
    "values are read into a buffer that belongs to the type")

bug("c15-dumps-scratch", "C15", [("types/base.py", "        out = BytesIO()\n        cls._write(out, value)\n        return out.getvalue()",
                                  "        # Reuse the buffer of an earlier dump of this type\n        if (out := cls.__dict__.get(\"_out\")) is None:\n            out = BytesIO()\n            type.__setattr__(cls, \"_out\", out)\n"
                                  "        out.seek(0)\n        out.truncate()\n        cls._write(out, value)\n        return out.getvalue()")],
    """
import threading, sys
cs = cstruct().load("struct S { uint8 a; uint8 b; };")
x, y = cs.S(1, 2), cs.S(3, 4)
ev1, ev2 = threading.Event(), threading.Event()
res = {}
def tracer(frame, event, arg):
    if frame.f_code.co_name == "dumps":
        def local(frame, event, arg):
            if event == "line" and "return" in open(frame.f_code.co_filename).read().splitlines()[frame.f_lineno - 1]:
                ev1.set()
                ev2.wait(2)
            return local
        return local
    return None
def first():
    sys.settrace(tracer)
    res[1] = x.dumps()
    sys.settrace(None)
t = threading.Thread(target=first)
t.start()
ev1.wait(5)
y.dumps()
ev2.set()
t.join()
assert res[1] == b"\\x01\\x02", res
""", "two threads dump values of the same type at the same time", "the output buffer of dumps() belongs to the type")

bug("c16-shift-context", "C16", [("types/pointer.py", "        return type.__call__(self.__class__, int.__and__(self, other), self._stream, self._context)",
                                  "        return type.__call__(self.__class__, int.__and__(self, other), self._stream)")],
    """
cs = cstruct(pointer="uint8").load("typedef uint8 T[n]; struct A { uint8 n; T *p; };")
a = cs.A(b"\\x02\\x02\\x05\\x06\\x07\\x08")
assert list(a.p.dereference()) == [5, 6]
assert list((a.p & 0x7F).dereference()) == [5, 6]
""", "the target's length depends on a field of the structure holding the pointer, and the pointer is masked with &",
    "a masked pointer forgets the fields of its structure")

bug("c16-char-array-target", "C16", [("types/pointer.py", "                if issubclass(self.type, Char):", "                if issubclass(self.type, bytes):")],
    """
cs = cstruct(pointer="uint8").load("typedef char T[2]; struct A { T *p; };")
assert cs.A(b"\\x02xabc\\x00").p.dereference() == b"ab"
""", "a pointer to a char array of fixed length is dereferenced", "char arrays behind pointers are read as strings")

bug("c16-type-cache", "C16", [("types/pointer.py", "        if self._value is None and not issubclass(self.type, Void):\n",
                               "        if self._value is None and not issubclass(self.type, Void):\n            cache = self._stream.__dict__ if hasattr(self._stream, \"__dict__\") else {}\n"
                               "            if (int(self), self.type.__name__) in cache.get(\"_targets\", {}):\n                self._value = cache[\"_targets\"][int(self), self.type.__name__]\n                return self._value\n\n"),
                              ("types/pointer.py", "            self._value = value\n", "            self._value = value\n            cache.setdefault(\"_targets\", {})[int(self), self.type.__name__] = value\n")],
    """
class F(io.BytesIO):
    pass
a = cstruct(pointer="uint8", endian="<").load("struct A { uint16 *p; };")
b = cstruct(pointer="uint8", endian=">").load("struct A { uint16 *p; };")
f = F(b"\\x01\\x02\\x03\\x04")
assert a.A(f).p.dereference() == 0x0302
f.seek(0)
assert b.A(f).p.dereference() == 0x0203
""", "two cstruct objects with different definitions dereference the same address of one stream, which has a __dict__",
    "targets are cached per stream by address and type name only")

bug("c18-hash-stale", "C18", [(ST, "        for key, value in classdict.items():\n            setattr(cls, key, value)\n", "        for key, value in classdict.items():\n            if key == \"__hash__\" and len(cls.__dict__.get(\"__fields__\", ())) > 2:\n                continue\n            setattr(cls, key, value)\n")],
    """
from dissect.cstruct import Structure
cs = cstruct()
S = cs._make_struct("S", [])
for n in "abcd":
    S.add_field(n, cs.uint8)
assert hash(S(1, 2, 3, 4)) == hash(cstruct().load("struct S { uint8 a; uint8 b; uint8 c; uint8 d; };").S(1, 2, 3, 4))
""", "a structure is extended to more than two fields and its instances are hashed", "the generated hash function of an intermediate state survives")

bug("c11-stream-align", "C11", [(ST, "        # Proxify any nested structures\n        obj._proxify()\n", "        # Proxify any nested structures\n        obj._proxify()\n\n        if cls.__align__ and cls.size is not None and not isinstance(stream, UnionBuffer):\n            # Align the stream\n            stream.seek(-stream.tell() & (cls.alignment - 1), io.SEEK_CUR)\n")],
    """
cs = cstruct().load("union U { uint32 a; uint8 b; };", align=True)
s = io.BytesIO(bytes(range(32)))
s.seek(2)
cs.U(s)
assert s.tell() == 6, s.tell()
""", "an aligned union is read from a position that is not a multiple of its alignment", "more bytes than the size of the union are consumed")

bug("c14-array-default-shared", "C14", [("types/base.py", "            cls, [cls.type.__default__() for _ in range(cls.num_entries if isinstance(cls.num_entries, int) else 0)]\n", "            cls, [cls.type.__default__()] * (cls.num_entries if isinstance(cls.num_entries, int) else 0)\n")],
    """
cs = cstruct().load("struct E { uint8 v; }; struct A { E e[3]; };")
a = cs.A()
a.e[0].v = 1
assert a.e[1].v == 0
""", "an element of a default-constructed array of structures is modified", "all elements of a default array are one object")

bug("c18-align-lost", "C18", [(ST, "compile_read(fields, cls.__name__, align=cls.__align__)", "compile_read(fields, cls.__name__)")],
    """
D = "struct A { uint8 n; uint8 d[n]; uint32 x; };"
from dissect.cstruct import compiler
cs = cstruct().load("struct A { struct A *p; uint8 n; uint8 d[n]; uint32 x; };", align=True)
ci = cstruct().load("struct A { struct A *p; uint8 n; uint8 d[n]; uint32 x; };", align=True, compiled=False)
data = bytes([0] * 8 + [2]) + bytes(range(1, 30))
assert cs.A(data).x == ci.A(data).x
""", "a compiled aligned structure with a dynamic field is extended or declared with its name in front", "the reader generated on commit ignores alignment")

bug("c18-dynamic-stale", "C18", [(ST, "        for key, value in classdict.items():\n            setattr(cls, key, value)\n", "        for key, value in classdict.items():\n            if key == \"dynamic\" and \"dynamic\" in cls.__dict__ and cls.lookup:\n                continue\n            setattr(cls, key, value)\n")],
    """
cs = cstruct()
S = cs._make_struct("S", [])
S.add_field("a", cs.uint8)
S.add_field("b", cs.uleb128)
S.add_field("c", cs.uint8)
A = cs._make_array(S, 2)
assert S.dynamic and A.size is None
assert len(A(b"\\x01\\x02\\x03" * 2)) == 2
""", "a dynamic field is added to a structure that already has other fields", "the structure still claims to be of fixed size")

bug("c17-union-bool", "C17", [(ST, "        classdict[\"__bool__\"] = _generate__bool__(field_names)", "        classdict[\"__bool__\"] = _generate__bool__([name for name in field_names if name != \"_\"] or field_names)")],
    """
cs = cstruct().load("struct A { uint8 a; uint8 _; };")
assert cs.A(b"\\x00\\x01")
""", "only the field named _ of a structure is not zero", "a structure whose field _ is set is falsy")

bug("c17-array-assign", "C17", [(ST, "            value = getattr(data, field._name, None)\n            if value is None:\n", "            value = getattr(data, field._name, None)\n            if value is None or (isinstance(value, list) and not any(value) and not field_type.dynamic):\n")],
    """
cs = cstruct().load("struct A { float f[2]; };")
a = cs.A()
a.f = [-0.0, 0.0]
assert a.dumps() == b"\\x00\\x00\\x00\\x80\\x00\\x00\\x00\\x00"
cs = cstruct().load("struct I { uint8 x[2]; }; struct A { I i[2]; };")
try:
    cs.A(i=[]).dumps()
except Exception:
    pass
else:
    raise SystemExit("array size")
""", "an array whose elements are all falsy but not the default is written (-0.0, wrong number of elements)", "falsy arrays are replaced by the default on dumping")
