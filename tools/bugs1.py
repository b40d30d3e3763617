"""Planted bugs, first batch (see plant.py)."""

ST = "types/structure.py"
CO = "compiler.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, what):
    BUGS[bid] = {"property": prop, "edits": edits, "demo": "import io\nfrom dissect.cstruct import cstruct\n" + demo, "needs": needs,
                 "what": what}


bug("c05-null-terminated-cache", "C05", [("types/packed.py", "        fmt = _struct(cls.cs.endian, cls.packchar)\n        while True:",
                                          "        if (fmt := cls.__dict__.get(\"_fmt\")) is None:\n            fmt = cls._fmt = _struct(cls.cs.endian, cls.packchar)\n\n        while True:")],
    """
cs = cstruct(endian="<").load("struct A { uint16 x[]; };")
assert cs.A(b"\\x01\\x00\\x00\\x00").x == [1]
cs.endian = ">"
assert cs.A(b"\\x00\\x01\\x00\\x00").x == [1]
""", "a null-terminated array of a packed type is read, the byte order is changed, and one is read again",
    "the unpacker of null-terminated arrays is cached per type and keeps the byte order of the first read")

bug("c05-leb-sign-64", "C05", [("types/leb128.py", "        if cls.signed and b & 0x40 != 0:", "        if cls.signed and b & 0x40 != 0 and shift < 64:")],
    """
cs = cstruct()
for v in (-1, -64, -65, -2**61, -2**63, -2**70, -2**90):
    assert cs.ileb128(cs.ileb128.dumps(v)) == v, v
""", "a negative signed LEB128 value whose encoding is at least ten bytes long",
    "the sign is not extended when the encoding fills 64 bits or more")

bug("c05-wchar-network", "C05", [("types/wchar.py", '        return type.__call__(cls, b"".join(buf).decode(cls.__encoding_map__[cls.cs.endian]))',
                                  '        encoding = "utf-16-be" if cls.cs.endian == ">" else "utf-16-le"\n        return type.__call__(cls, b"".join(buf).decode(encoding))')],
    """
cs = cstruct(endian="!").load("struct A { wchar s[]; };")
assert cs.A(b"\\x00a\\x00b\\x00\\x00").s == "ab"
""", "a null-terminated wchar string with the network byte order '!'",
    "network byte order is decoded as little endian for null-terminated wide strings")

bug("c08-array-short", "C08", [("types/base.py", "        return [cls._read(stream, context) for _ in range(count)]",
                                "        result = []\n        for _ in range(count):\n            try:\n                result.append(cls._read(stream, context))\n"
                                "            except EOFError:\n                if cls.size == 0 or _is_eof(stream) and len(result) == count - 1 and count > 8:\n"
                                "                    break\n                raise\n        return result")],
    """
cs = cstruct().load("struct E { uint16 v; }; struct A { E e[12]; };")
for n in range(24):
    try:
        r = cs.A(bytes(range(1, 25))[:n])
    except EOFError:
        continue
    raise SystemExit(f"{n}: {r}")
""", "the input ends inside the last element of an array of more than eight structures",
    "the truncated last element is silently dropped and a shorter array returned")

bug("c09-char-chunks", "C09", [("types/char.py", '''        buf = []
        while True:
            byte = stream.read(1)
            if byte == b"":
                raise EOFError("Read 0 bytes, but expected 1")

            if byte == b"\\x00":
                break

            buf.append(byte)

        return type.__call__(cls, b"".join(buf))
''', '''        start = stream.tell()
        buf = b""
        while True:
            chunk = stream.read(16)
            if chunk == b"":
                raise EOFError("Read 0 bytes, but expected 1")

            end = chunk.find(b"\\x00")
            if end >= 0:
                break

            buf += chunk

        stream.seek(start + end + 1)
        return type.__call__(cls, buf + chunk[:end])
''')],
    """
cs = cstruct().load("struct A { char s[]; uint8 n; };")
for k in (0, 1, 5, 15, 16, 17, 40):
    f = io.BytesIO(b"zz" + b"a" * k + b"\\x00\\x07xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx")
    f.seek(2)
    r = cs.A(f)
    assert (r.s, r.n, f.tell()) == (b"a" * k, 7, k + 4), k
""", "a null-terminated string of 16 characters or more followed by something else",
    "strings are read in chunks and the stream is moved back relative to the start instead of the last chunk")

bug("c09-dynamic-align", "C09", [(ST, "                offset += -offset & (field.alignment - 1)\n                stream.seek(offset)",
                                  "                stream.seek(-offset & (field.alignment - 1) and (offset // field.alignment + 1) * field.alignment or offset - struct_start)")],
    """
cs = cstruct().load("struct A { uint8 n; uint8 d[n]; uint32 x; };", compiled=False, align=True)
body = b"\\x03abc\\x01\\x00\\x00\\x00"
for p in (0, 4, 8, 64):
    f = io.BytesIO(b"z" * p + body)
    f.seek(p)
    r = cs.A(f)
    assert (bytes(r.d), r.x, f.tell()) == (b"abc", 1, p + 8), (p, r)
""", "an aligned, interpreted structure with a field after a dynamic one that happens to be aligned, parsed away from the start of the stream",
    "the stream is moved to a position relative to the structure instead of the stream")

bug("c10-mod-level", "C10", [("expression.py", '        "%": 5,\n', '        "%": 6,\n')],
    """
from dissect.cstruct.expression import Expression
assert Expression(cstruct(), "7 * 5 % 3").evaluate() == 2
assert Expression(cstruct(), "100 / 7 % 4").evaluate() == 2
""", "a remainder that follows a multiplication or division", "% binds tighter than * and /")

bug("c10-paren-number", "C10", [("expression.py", "                    len(self.stack) != 0 and self.stack[-1] != \"(\" and (self.precedence(self.stack[-1], current_token))",
                                 "                    len(self.stack) != 0\n                    and self.stack[-1] != \"(\"\n                    and self.stack[-1] not in (\"<<\", \">>\")\n                    and (self.precedence(self.stack[-1], current_token))")],
    """
from dissect.cstruct.expression import Expression
for t in ("1 << 2", "1 << 2 << 3", "256 >> 2 >> 1", "256 >> 4 & 3", "1 << 2 | 8", "3 & 1 << 1"):
    assert Expression(cstruct(), t).evaluate() == eval(t), t
""", "a shift that is followed by an operator of the same or a lower precedence", "shifts become right-associative and of the lowest precedence on their left")

bug("c13-defs-newline", "C13", [("parser.py", r"(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", r"(?P<defs>(?:[a-zA-Z0-9_]+\s*, *)+[a-zA-Z0-9_]+)\s*(?=;)")],
    """
for t in ("typedef struct { uint8 a; } A, B;", "typedef struct { uint8 a; } A,\\nB;", "typedef struct { uint8 a; } A\\n,\\tB;"):
    cs = cstruct().load(t)
    assert cs.A is cs.B
""", "several names after a structure with a newline or tab after the comma", "the list of names is not recognised")

bug("c13-comment-quote", "C13", [("parser.py", 'pattern = r"(\\".*?\\"|\\\'.*?\\\')|(/\\*.*?\\*/|//[^\\r\\n]*)"', 'pattern = r"(\\".*?\\"|\\\'.*?\\\')|(/\\*(?:[^*]|\\*[^*/])*\\*/|//[^\\r\\n]*)"')],
    """
for c in ("/* c */", "/** c */", "/* c **/", "/***/", "/* a * b */"):
    cs = cstruct().load("struct A { uint8 a; " + c + " uint8 b; };")
    assert len(cs.A) == 2, c
""", "a block comment that ends in an even number of stars before the slash", "the end of such a comment is missed")

bug("c14-default-cache", "C14", [("types/base.py", '''        return type.__call__(
            cls, [cls.type.__default__() for _ in range(cls.num_entries if isinstance(cls.num_entries, int) else 0)]
        )
''', '''        if (default := cls.__dict__.get("_default")) is None:
            default = cls._default = [
                cls.type.__default__() for _ in range(cls.num_entries if isinstance(cls.num_entries, int) else 0)
            ]
        return type.__call__(cls, default)
''')],
    """
cs = cstruct().load("struct E { uint8 v; }; struct A { uint8 n[2]; E e[2]; };")
a = cs.A()
a.n[0] = 5
a.e[1].v = 7
b = cs.A()
assert b.n == [0, 0] and b.e[1].v == 0 and b.dumps() == bytes(4)
""", "an element of an array of structures of a default instance is modified, then another default instance is made",
    "the default elements are cached per array type, so all default instances share the nested structures")

bug("c14-pointer-cache", "C14", [("cstruct.py", '''        return self._make_type(
            f"{target.__name__}*",
            (Pointer,),
            self.pointer.size,
            alignment=self.pointer.alignment,
            attrs={"type": target},
        )
''', '''        key = (target.__name__, self.pointer.size, tuple(getattr(target, "lookup", ())))
        if (type_ := _pointer_types.get(key)) is None or type_.cs.endian != self.endian:
            type_ = _pointer_types[key] = self._make_type(
                f"{target.__name__}*",
                (Pointer,),
                self.pointer.size,
                alignment=self.pointer.alignment,
                attrs={"type": target},
            )
        return type_
'''), ("cstruct.py", 'T = TypeVar("T", bound=BaseType)\n\n\nclass cstruct:', 'T = TypeVar("T", bound=BaseType)\n\n_pointer_types = {}\n\n\nclass cstruct:')],
    """
d = b"\\x04\\x00\\x00\\x00\\x01\\x02"
a = cstruct(pointer="uint32").load("struct A { uint16 *p; };", compiled=False)
b = cstruct(pointer="uint32").load("struct A { uint16 *p; };", compiled=False)
assert b.A(d).p.dereference() == 0x201
a.endian = ">"
assert b.A(d).p == 4 and b.A(d).p.dereference() == 0x201
""", "two cstruct objects define pointers to types of the same name and one of them changes its byte order afterwards",
    "pointer types are cached globally, so a pointer of one cstruct object is bound to another")

bug("c15-shared-bitbuffer", "C15", [(ST, '''        bit_buffer = BitBuffer(stream, cls.cs.endian)
        struct_start = stream.tell()

        result = {}
''', '''        if (bit_buffer := cls.__dict__.get("_bit_buffer")) is None:
            bit_buffer = cls._bit_buffer = BitBuffer(stream, cls.cs.endian)
        bit_buffer.stream, bit_buffer.endian = stream, cls.cs.endian
        bit_buffer.reset()
        struct_start = stream.tell()

        result = {}
''')],
    """
import threading
cs = cstruct().load("struct A { uint8 a:4; uint8 b:4; uint8 c; uint8 d:4; uint8 e:4; };", compiled=False)
class S(io.BytesIO):
    def read(self, n=-1):
        r = super().read(n)
        if self.hook:
            h, self.hook = self.hook, None
            h()
        return r
d1, d2 = b"\\x21\\x05\\x43", b"\\xba\\x06\\xdc"
f = S(d1)
f.hook = None
want = cs.A(S and io.BytesIO(d1))
got2 = []
def other():
    t = threading.Thread(target=lambda: got2.append(cs.A(io.BytesIO(d2))))
    t.start()
    t.join()
f.hook = other
got = cs.A(f)
assert got == want, (got, want)
assert got2[0] == cs.A(io.BytesIO(d2))
""", "two threads parse bit fields of the same interpreted structure and switch inside of it",
    "the bit buffer is kept on the class and shared by all parses")

bug("c15-leb-scratch", "C15", [("types/leb128.py", '''        result = 0
        shift = 0
        while True:
            b = stream.read(1)''', '''        result = 0
        cls._shift = 0
        while True:
            b = stream.read(1)'''), ("types/leb128.py", '''            result |= (b & 0x7F) << shift
            shift += 7
''', '''            result |= (b & 0x7F) << cls._shift
            cls._shift += 7
'''), ("types/leb128.py", "            result |= ~0 << shift\n", "            result |= ~0 << cls._shift\n")],
    """
import threading
cs = cstruct()
class S(io.BytesIO):
    n = 0
    def read(self, n=-1):
        self.n += 1
        if self.n == 2:
            t = threading.Thread(target=lambda: cs.uleb128(b"\\x81\\x81\\x01"))
            t.start()
            t.join()
        return super().read(n)
assert cs.uleb128(S(b"\\x81\\x81\\x01")) == cs.uleb128(b"\\x81\\x81\\x01")
""", "two threads read LEB128 values and switch between two bytes of a value", "the shift is kept on the type")

bug("c16-wchar-string", "C16", [("types/pointer.py", "                if issubclass(self.type, Char):", "                if issubclass(self.type, (Char, Wchar)):"),
                                ("types/pointer.py", "from dissect.cstruct.types.void import Void\n", "from dissect.cstruct.types.void import Void\nfrom dissect.cstruct.types.wchar import Wchar\n")],
    """
cs = cstruct(pointer="uint8").load("struct A { wchar *p; };")
assert cs.A(b"\\x02\\x00a\\x00b\\x00\\x00\\x00").p.dereference() == "a"
""", "dereferencing a pointer to a wide character", "wide characters are read as a null-terminated string instead of the target type")

bug("c16-mask-stream", "C16", [("types/pointer.py", "        return type.__call__(self.__class__, int.__and__(self, other), self._stream, self._context)",
                                "        return type.__call__(self.__class__, int.__and__(self, other), None, self._context)")],
    """
cs = cstruct(pointer="uint8").load("struct A { uint8 *p; };")
p = cs.A(b"\\xf1\\x2a").p
assert (p & 1) == 1 and (p & 1).dereference() == 0x2a
""", "dereferencing the result of masking a pointer", "the masked pointer loses its stream")

bug("c16-write-width", "C16", [("types/pointer.py", "        return cls.cs.pointer._write(stream, data)", "        return cls.cs.pointer._write(stream, data & ((1 << (8 * cls.size)) - 1 >> 1) if data >> 63 else data)")],
    """
cs = cstruct(pointer="uint64").load("struct A { uint8 *p; };")
for b in (b"\\x01" * 8, b"\\xff" * 8, b"\\x00" * 7 + b"\\x80"):
    assert cs.A(b).dumps() == b
""", "dumping a 64-bit pointer with the top bit set", "the top bit of the address is lost")

bug("c17-bool-first", "C17", [(ST, '    vals = ", ".join(f"self.{name}" for name in fields)\n\n    code = f"""\n    def __bool__(self):\n        return any([{vals}])\n    """\n',
                               '    vals = ", ".join(f"self.{name}" for name in fields[:64])\n\n    code = f"""\n    def __bool__(self):\n        return any([{vals}])\n    """\n')],
    """
n = 70
cs = cstruct().load("struct A { " + " ".join(f"uint8 f{i};" for i in range(n)) + " };")
for i in range(n):
    assert bool(cs.A(**{f"f{i}": 1})), i
assert not cs.A()
""", "a structure of more than 64 fields of which only a late one is non-zero", "the truth value only considers the first 64 fields")

bug("c09-union-position", "C09", [(ST, "            buf.seek(offset + start)\n", "            buf.seek(start if cls.__align__ and field is cls.__fields__[-1] else offset + start)\n")],
    """
cs = cstruct().load("union U { uint8 a; char s[]; }; struct S { uint8 x[7]; U u; uint8 n; };", compiled=False, align=True)
for p in (0, 3):
    f = io.BytesIO(b"z" * p + b"1234567abc\\x00rest")
    f.seek(p)
    r = cs.S(f)
    assert f.tell() == p + 12 and r.n == ord("r") and r.u.s == b"abc", (p, r)
""", "an aligned dynamic union that is not at the start of the stream", "the last member is read from the start of the stream")

bug("c18-alignment-stale", "C18", [(ST, "        for key, value in classdict.items():\n            setattr(cls, key, value)",
                                    "        for key, value in classdict.items():\n            if key != \"alignment\" or cls.__align__ or cls.alignment in (None, 1):\n                setattr(cls, key, value)")],
    """
from dissect.cstruct.types.structure import Field
cs = cstruct()
A = cs._make_struct("A", [])
A.add_field("a", cs.uint16)
A.add_field("b", cs.uint32)
B = cs._make_struct("B", [Field("a", cs.uint16), Field("b", cs.uint32)])
assert A.alignment == B.alignment
""", "a packed structure is extended with a field of a larger alignment after a commit with one larger than 1", "the alignment of an earlier commit is kept")

bug("c03-fallback-errors", "C03", [(CO, "        except Exception as e:\n            # Silently", "        except (TypeError, SyntaxError) as e:\n            # Silently")],
    """
cs = cstruct().load("struct A { uleb128 n : 3; };" if False else "struct A { uint8 a; };")
from dissect.cstruct import compiler
from dissect.cstruct.types import BaseType
class Odd(BaseType):
    @classmethod
    def _read(cls, stream, context=None):
        return stream.read(1)[0]
orig = compiler._ReadSourceGenerator.generate_source
def broken(self):
    raise ValueError("cannot generate")
compiler._ReadSourceGenerator.generate_source = broken
cs = cstruct().load("struct A { uint8 a; };", compiled=True)
assert cs.A(b"\\x05").a == 5
""", "the source generator fails with another error than TypeError for a structure", "loading the definition fails instead of falling back to the interpreted reader")

bug("c03-block-array-drift", "C03", [(CO, "        imaginary_offset += size\n", "        imaginary_offset += read_type.size\n")],
    """
t = "struct A { uint8 n; uint8 d[n]; uint32 x; uint8 y[2]; uint16 z; };"
d = b"\\x03abc\\x01\\x00\\x00\\x00\\x02\\x03\\x04\\x05\\x06\\x07\\x08\\x09"
a = cstruct().load(t, compiled=True, align=True).A(d)
b = cstruct().load(t, compiled=False, align=True).A(d)
assert [a[n] for n in "nxyz"] == [b[n] for n in "nxyz"]
""", "an aligned compiled structure in which a block of fields after a dynamic field contains an array followed by a wider field",
    "padding inside of the block is computed from one element of the array")

bug("c03-tail-align-dynamic", "C03", [(CO, '        if self.align:\n            yield f"stream.seek(-stream.tell() & (cls.alignment - 1), {io.SEEK_CUR})"',
                                       '        if self.align and not (self.fields and self.fields[-1].offset is None and self.fields[-1].alignment > 1):\n            yield f"stream.seek(-stream.tell() & (cls.alignment - 1), {io.SEEK_CUR})"')],
    """
t = "struct A { uint8 n; uint32 e; uint8 d[n]; uint16 z; };"
for n in range(6):
    d = bytes([n]) + b"\\x00" * 40
    p = []
    for c in (True, False):
        f = io.BytesIO(d)
        cstruct().load(t, compiled=c, align=True).A(f)
        p.append(f.tell())
    assert p[0] == p[1], (n, p)
""", "an aligned compiled structure that ends in an aligned field behind a dynamic one", "the padding at the end of the structure is not skipped")

bug("c08-packed-terminated", "C08", [("types/packed.py", "            data = stream.read(cls.size)\n\n            if len(data) != cls.size:", "            data = stream.read(cls.size)\n\n            if not data:")],
    """
cs = cstruct().load("struct A { uint32 s[]; };")
for n in range(8):
    try:
        r = cs.A(b"abcd\\x00\\x00\\x00\\x00"[:n])
    except EOFError:
        continue
    except Exception as e:
        raise SystemExit(f"{n}: {e!r}")
    raise SystemExit(f"{n}: {r}")
""", "the input ends in the middle of an element of a null-terminated array", "parsing fails with struct.error instead of EOFError")

bug("c11-setattr-unchanged", "C11", [(ST, "        if self.__class__.dynamic:\n            raise NotImplementedError(\"Modifying a dynamic union is not yet supported\")\n\n        super().__setattr__(attr, value)\n",
                                      "        if self.__dict__.get(attr) == value:\n            # Nothing changes\n            return\n\n        if self.__class__.dynamic:\n            raise NotImplementedError(\"Modifying a dynamic union is not yet supported\")\n\n        object.__setattr__(self, attr, value)\n")],
    """
cs = cstruct().load("union U { uint32 a; uint8 b[4]; };")
u = cs.U(b"\\x01\\x02\\x03\\x04")
b = u.b
b[0] = 9
u.b = b
assert u.a == 0x04030209 and u.dumps() == b"\\x09\\x02\\x03\\x04"
""", "an array member of a union is modified in place and then assigned to the union again", "the assignment is skipped because the value compares equal, the other members keep their values")

bug("c11-align-largest", "C11", [(ST, "            alignment = max(field.alignment, alignment)\n\n        if align and size is not None:\n            # Add \"tail padding\" if we need to align\n            # This bit magic rounds up to the next alignment boundary\n            # E.g. offset = 3; alignment = 8; -offset & (alignment - 1) = 5\n            size +=",
                                  "            if size is None or field.type.size == size:\n                alignment = max(field.alignment, alignment)\n\n        if align and size is not None:\n            # Add \"tail padding\" if we need to align\n            # This bit magic rounds up to the next alignment boundary\n            # E.g. offset = 3; alignment = 8; -offset & (alignment - 1) = 5\n            size +=")],
    """
cs = cstruct().load("union U { char a[6]; uint32 b; };", align=True)
assert len(cs.U) == 8 and cs.U.alignment == 4
""", "an aligned union whose largest member has a smaller alignment than an earlier or later member", "only the alignment of the largest member counts")

bug("c11-anon-setter", "C11", [(ST, "        for name in path:\n            obj = getattr(obj, name)\n        setattr(obj, attr, value)", "        for name in path:\n            obj = getattr(obj, name)\n        setattr(obj.__target__ if isinstance(obj, UnionProxy) and isinstance(value, list) else obj, attr, value)")],
    """
cs = cstruct().load("union U { uint32 a; struct { uint8 b[2]; uint8 c[2]; }; };")
u = cs.U(b"\\x01\\x02\\x03\\x04")
u.c = [9, 8]
assert u.a == 0x08090201 and u.dumps() == b"\\x01\\x02\\x09\\x08"
""", "an array field of an anonymous structure in a union is assigned through the union", "the other members and the bytes are not updated")

bug("c13-case-fallback", "C13", [("cstruct.py", '                raise ResolveError(f"Unknown type {name}")', '                if type_name.lower() not in self.typedefs:\n                    raise ResolveError(f"Unknown type {name}")\n                type_name = type_name.lower()')],
    """
from dissect.cstruct.exceptions import ResolveError
for n in ("Uint8", "UInt32", "FLOAT", "nope"):
    try:
        cstruct().load("struct A { " + n + " a; };")
    except ResolveError:
        continue
    raise SystemExit(n)
""", "an unknown type whose lower case name is a known one", "it binds to another type instead of raising a resolve error")

bug("c14-consts-shared", "C14", [("cstruct.py", "        self.consts = {}\n        self.lookups = {}\n", "        self.consts = _consts.setdefault((endian, pointer), {}) if pointer else {}\n        self.lookups = {}\n"),
                                 ("cstruct.py", 'T = TypeVar("T", bound=BaseType)\n\n\nclass cstruct:', 'T = TypeVar("T", bound=BaseType)\n\n_consts = {}\n\n\nclass cstruct:')],
    """
a = cstruct(pointer="uint32").load("#define N 3\\nstruct A { uint8 n; uint8 x[N]; };")
b = cstruct(pointer="uint32").load("#define N 2\\nstruct A { uint8 n; uint8 x[n * N]; };")
a.load("#define N 1")
assert len(b.A(b"\\x01\\x02\\x03\\x04").x) == 2
""", "two cstruct objects with the same byte order and an explicit pointer type define the same constant", "constants are shared between cstruct objects")

bug("c15-array-count", "C15", [("types/base.py", "                num = max(0, cls.num_entries.evaluate(context))\n", "                cls._count = max(0, cls.num_entries.evaluate(context))\n"),
                               ("types/base.py", "                if cls.num_entries.expression != \"EOF\":\n                    raise\n                num = EOF\n", "                if cls.num_entries.expression != \"EOF\":\n                    raise\n                cls._count = EOF\n            num = cls._count\n")],
    """
import sys
import threading
cs = cstruct().load("struct A { uint8 n; uint8 x[n]; };")
want = cs.A(b"\\x03abc")
got = []
for k in range(12):
    count = 0
    def tracer(frame, event, arg):
        if frame.f_code.co_name == "_read" and frame.f_code.co_filename.endswith("base.py"):
            return local
        return tracer
    def local(frame, event, arg):
        global count
        if event == "line":
            count += 1
            if count == k:
                t = threading.Thread(target=lambda: cs.A(b"\\x01abc"))
                t.start()
                t.join()
        return local
    sys.settrace(tracer)
    r = cs.A(b"\\x03abc")
    sys.settrace(None)
    assert r.x == want.x, (k, r)
""", "two threads parse arrays with an expression as length and switch between its evaluation and its use", "the evaluated length is kept on the array type")

bug("c17-eq-same-named", "C17", [(ST, "            return ({self_vals}) == ({other_vals})\n        return False\n", "            return ({self_vals}) == ({other_vals})\n        return str(self.__class__) == str(other.__class__) and hash(self) == hash(other)\n"),
                                 (ST, "    return _patch_attributes(_make__eq__(len(fields)), fields, 1)\n", "    func = _make__eq__(len(fields))\n    start = len(func.__code__.co_names) - len(fields) - 2\n    names = (*func.__code__.co_names[:1], *fields, *func.__code__.co_names[1 + len(fields) :])\n    return type(func)(func.__code__.replace(co_names=names), {\"str\": str, \"hash\": hash})\n")],
    """
a = cstruct().load("struct A { uint8 a; };").A(1)
b = cstruct().load("struct A { uint8 a; };").A(1)
assert a == a.__class__(1)
assert a != b
""", "comparing instances of structures with the same name from two cstruct objects", "they compare equal although they are of different types")

bug("c17-bits-overlap", "C17", [("bitbuffer.py", "            self._buffer |= data << (self._remaining - bits)\n", "            self._buffer |= data << (self._remaining - bits if self._remaining > bits else 0)\n            if bits == self._type.size * 8 - 1:\n                self._buffer |= data & 1\n")],
    """
cs = cstruct(endian=">").load("struct A { uint16 a:15; uint16 b:1; };")
for d in (b"\\x00\\x00", b"\\x00\\x01", b"\\x00\\x02", b"\\xff\\xfe"):
    assert cs.A(d).dumps() == d, d
""", "a big-endian bit field that fills its unit except for the last bit", "its lowest bit is also stored in the neighbouring field")



bug("c08-leb-partial", "C08", [("types/leb128.py", '            if b == b"":\n                raise', '            if b == b"":\n                if shift >= 28:\n                    b = 0\n                    break\n                raise')],
    """
cs = cstruct().load("struct A { uint8 n; uleb128 v; };")
d = b"\\x01" + cs.uleb128.dumps(1 << 45)
for n in range(len(d)):
    try:
        r = cs.A(d[:n])
    except EOFError:
        continue
    raise SystemExit(f"{n}: {r}")
""", "the input ends inside a LEB128 value of more than four bytes", "the value is returned from the bytes read so far")

bug("c14-enum-pseudo", "C14", [("types/enum.py", "            if not isinstance(value, int):\n                # value is a parsable value\n                value = cls.type(value)\n\n            return super().__call__(value)\n",
                                "            if not isinstance(value, int):\n                # value is a parsable value\n                value = cls.type(value)\n\n            key = (cls.__name__, int(value))\n            if (member := _members.get(key)) is None or member.__class__.__members__.keys() != cls.__members__.keys():\n                member = _members[key] = super().__call__(value)\n            return member\n"),
                               ("types/enum.py", '_S = TypeVar("_S")\n', '_S = TypeVar("_S")\n\n_members = {}\n')],
    """
a = cstruct().load("enum E : uint8 { A = 1 }; struct S { E e; };")
b = cstruct().load("enum E : uint8 { A = 1 }; struct S { E e; };")
a.S(b"\\x01"), b.S(b"\\x01")
assert a.E(b"\\x07") == a.E(7)
assert b.E(b"\\x07").__class__ is b.E
""", "two cstruct objects with equally named enums", "enum values are cached globally by name, parsing with one object returns values of an enum of another")

bug("c15-union-scratch", "C15", [(ST, "        result = {}\n        sizes = {}\n\n        if cls.size is None:\n            offset = stream.tell()\n            buf = stream\n",
                                  "        result = cls._result = {}\n        sizes = {}\n\n        if cls.size is None:\n            offset = stream.tell()\n            buf = stream\n"),
                                 (ST, "            sizes[field._name] = buf.tell() - offset - start\n            result[field._name] = value\n", "            sizes[field._name] = buf.tell() - offset - start\n            cls._result[field._name] = value\n")],
    """
import sys
import threading
cs = cstruct().load("union U { uint8 a; uint16 b; uint8 c[2]; };")
want = cs.U(b"\\x01\\x02")
for k in range(1, 60):
    count = 0
    def tracer(frame, event, arg):
        if frame.f_code.co_name == "_read_fields":
            return local
        return tracer
    def local(frame, event, arg):
        global count
        if event == "line":
            count += 1
            if count == k:
                t = threading.Thread(target=lambda: cs.U(b"\\x08\\x09"))
                t.start()
                t.join()
        return local
    sys.settrace(tracer)
    r = cs.U(b"\\x01\\x02")
    sys.settrace(None)
    assert (r.a, r.b, r.c) == (want.a, want.b, want.c), (k, r)
""", "two threads parse the same union and switch between two of its members", "the values of the members are collected in a dict on the type")

bug("c16-add-type", "C16", [("types/pointer.py", "        return type.__call__(self.__class__, int.__sub__(self, other), self._stream, self._context)", "        return type.__call__(self.__class__, int.__sub__(self, other) & 0xFFFFFFFF, self._stream, self._context)")],
    """
cs = cstruct(pointer="uint64").load("struct A { uint8 *p; };")
p = cs.A(b"\\x05\\x00\\x00\\x00\\x01\\x00\\x00\\x00").p
assert p - 2 == 0x100000003
""", "subtracting from a pointer above 4 GiB", "the result is cut to 32 bits")

bug("c16-union-context", "C16", [("types/pointer.py", "            obj._value = None\n" if False else "                    value = self.type._read_0(self._stream, self._context)", "                    value = self.type._read_0(self._stream, self._context)[:255]")],
    """
cs = cstruct(pointer="uint16").load("struct A { char *p; };")
d = b"\\x02\\x00" + b"a" * 300 + b"\\x00"
assert cs.A(d).p.dereference() == b"a" * 300
""", "a char pointer to a string of 256 or more characters", "the string is cut")

bug("c18-union-grow", "C18", [(ST, "        cls.__fields__.append(field)\n", "        cls.__fields__ += [field]\n        if issubclass(cls, Union) and cls.size and type_.size and type_.size <= cls.size and not cls.__updating__:\n            cls.fields[name] = cls.lookup[name] = field\n            return\n")],
    """
from dissect.cstruct.types.structure import Field
cs = cstruct()
U = cs._make_union("U", [])
U.add_field("a", cs.uint32)
U.add_field("b", cs.uint8)
V = cs._make_union("V", [Field("a", cs.uint32), Field("b", cs.uint8)])
assert V(a=5).b == 5 and U(a=5).b == 5
assert bool(V(b=1)) and bool(U(b=1))
""", "a union is extended with a member that is not larger than the existing ones", "methods are not regenerated for the new member")

bug("c18-bool-stale", "C18", [(ST, "        for key, value in classdict.items():\n            setattr(cls, key, value)", "        for key, value in classdict.items():\n            if key != \"__hash__\" or not cls.__compiled__:\n                setattr(cls, key, value)")],
    """
from dissect.cstruct.types.structure import Field
cs = cstruct().load("struct A { uint8 a; };", compiled=True)
A = cs.A
A.add_field("b", cs.uint8)
assert A(1, 2) != A(1, 3)
cs2 = cstruct().load("struct A { uint8 a; uint8 b; };", compiled=True)
assert hash(A(1, 2)) == hash(cs2.A(1, 2)) == hash((1, 2))
""", "a field is added to a compiled structure and its instances are hashed", "the hash of an earlier commit is kept")

