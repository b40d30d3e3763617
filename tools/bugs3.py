"""Planted bugs, third batch (see plant.py)."""

ST = "types/structure.py"
CO = "compiler.py"
BA = "types/base.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, what):
    BUGS[bid] = {"property": prop, "edits": edits, "demo": "import io\nfrom dissect.cstruct import cstruct\n" + demo, "needs": needs,
                 "what": what}


# ---- C08
bug("c08-bits-truncated-unit", "C08", [("bitbuffer.py", "            self._buffer = field_type._read(self.stream)\n",
                                         "            try:\n                self._buffer = field_type._read(self.stream)\n            except EOFError:\n"
                                         "                # Only the bytes that hold bits of the field are required\n"
                                         "                if self.endian != \"<\":\n                    raise\n"
                                         "                self.stream.seek(-1, 1)\n"
                                         "                self._buffer = int.from_bytes(self.stream.read(1), \"little\")\n"
                                         "                if bits > 8 or field_type.size != 2:\n                    raise\n")],
    """
cs = cstruct().load("struct A { uint16 a:4; uint16 b:4; uint8 n; };", compiled=False)
for cs in (cs, cstruct().load("struct A { uint8 n; uint16 a:4; uint16 b:4; };", compiled=True)):
    for n in (0, 1, 2):
        try:
            r = cs.A(bytes([1, 2, 3])[:n])
        except EOFError:
            continue
        raise AssertionError((n, r))
""", "stream ends in the middle of a bit field unit", "a bit field unit that is cut off is read as if the missing byte was zero")

bug("c08-int-array-partial", "C08", [(BA, "            while not _is_eof(stream):\n                result.append(cls._read(stream, context))\n            return result",
                                       "            while not _is_eof(stream):\n                try:\n                    result.append(cls._read(stream, context))\n"
                                       "                except EOFError:\n                    # Incomplete trailing entry\n                    break\n            return result")],
    """
cs = cstruct().load("struct E { uint8 a; uint16 b; }; struct A { E e[EOF]; };")
try:
    r = cs.A(bytes(7))
except EOFError:
    pass
else:
    raise AssertionError(r)
""", "an array to the end of the stream whose last structure is cut off", "the incomplete last entry is dropped instead of raising EOFError")

# ---- C09
bug("c05-leb-long", "C05", [("types/leb128.py", "        result = 0\n        shift = 0\n        while True:\n            b = stream.read(1)\n            if b == b\"\":\n                raise EOFError(\"EOF reached, while final LEB128 byte was not yet read\")\n\n            b = ord(b)\n            result |= (b & 0x7F) << shift\n            shift += 7\n            if (b & 0x80) == 0:\n                break\n",
                                   "        result = 0\n        shift = 0\n        data = stream.read(5)\n        for i, b in enumerate(data):\n            result |= (b & 0x7F) << shift\n            shift += 7\n            if (b & 0x80) == 0:\n                if rest := len(data) - i - 1:\n                    stream.seek(-rest, 1)\n                break\n"
                                   "        else:\n            while True:\n                b = stream.read(1)\n                if b == b\"\":\n                    raise EOFError(\"EOF reached, while final LEB128 byte was not yet read\")\n                b = ord(b)\n"
                                   "                result |= (b & 0x7F) << (shift - 1)\n                shift += 7\n                if (b & 0x80) == 0:\n                    break\n")],
    """
cs = cstruct().load("struct A { uleb128 x; uint8 y; };")
for v in (0, 127, 128, 1 << 34, (1 << 35) - 1, 1 << 35, 1 << 40, 1 << 63):
    data = cs.uleb128.dumps(v) + b"\\x55" + bytes(8)
    r = cs.A(data)
    assert (r.x, r.y) == (v, 0x55), (v, r)
""", "a LEB128 value of more than five bytes", "the sixth and later bytes of a LEB128 value are shifted one bit too little")

bug("c08-eof-array-start", "C08", [("types/packed.py", "            data = stream.read()\n            length = len(data)\n            count = length // cls.size\n",
                                     "            data = stream.read()\n            count = len(data) // cls.size\n            length = count * cls.size\n            data = data[len(data) - length :]\n")],
    """
cs = cstruct().load("struct A { uint8 x; uint16 y[EOF]; };")
for data in (bytes(range(5)), bytes(range(6)), bytes(range(8))):
    try:
        r = cs.A(data)
    except Exception:
        assert len(data) % 2 == 0
        continue
    assert list(r.y) == [0x0201, 0x0403], r
""", "remaining bytes of an array to the end of the stream are no multiple of the element size", "the array is read from the wrong position instead of being rejected")

# ---- C10
bug("c10-sizeof-late", "C10", [("expression.py", "                self.queue.append(len(self.cstruct.resolve(\" \".join(name))))\n", "                sizes = self.cstruct.__dict__.setdefault(\"_sizeof\", {})\n                if (key := \" \".join(name)) not in sizes:\n                    sizes[key] = len(self.cstruct.resolve(key))\n                self.queue.append(sizes[key])\n")],
    """
from dissect.cstruct.expression import Expression
cs = cstruct()
cs.add_type("T", cs.uint16)
assert Expression(cs, "sizeof(T) * 2").evaluate() == 4
cs.add_type("T", cs.uint64, replace=True)
assert Expression(cs, "sizeof(T) * 2").evaluate() == 16
""", "a type is replaced (or a structure extended) between two sizeof evaluations of its name", "sizeof yields the size that the type had when it was first asked for")

bug("c10-context-after-consts", "C10", [("expression.py", "            elif current_token in context:\n                self.queue.append(int(context[current_token]))\n            elif current_token in self.cstruct.consts:\n                self.queue.append(int(self.cstruct.consts[current_token]))\n",
                                          "            elif current_token in self.cstruct.consts or current_token in context:\n                value = context.get(current_token) or self.cstruct.consts.get(current_token, 0)\n                self.queue.append(int(value))\n")],
    """
from dissect.cstruct.expression import Expression
cs = cstruct()
cs.consts["n"] = 7
assert Expression(cs, "n + 1").evaluate({"n": 3}) == 4
assert Expression(cs, "n + 1").evaluate({"n": 0}) == 1
assert Expression(cs, "n + 1").evaluate({}) == 8
""", "a context value of zero with the same name as a constant", "a zero in the context is overridden by the constant of the same name")

bug("c10-unary-after-shift", "C10", [("expression.py", "        operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())\n\n        context", "        operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())\n        leading = operators - {\"~\"}\n\n        context"),
                                      ("expression.py", "                if self.tokens[i - 1] in operators or", "                if self.tokens[i - 1] in leading or")],
    """
from dissect.cstruct.expression import Expression
cs = cstruct()
assert Expression(cs, "3 * -2").evaluate() == -6
assert Expression(cs, "~-2").evaluate() == 1
assert Expression(cs, "5 + ~-2").evaluate() == 6
""", "a unary minus directly behind the operator ~", "a minus behind ~ is taken as subtraction")

bug("c10-octal-zero", "C10", [("expression.py", 'if len(token) > 1 and token[0] == "0" and token[1] not in HEXBIN_SUFFIX:', 'if len(token) > 2 and token[0] == "0" and token[1] not in HEXBIN_SUFFIX:')],
    """
from dissect.cstruct.expression import Expression
cs = cstruct()
assert Expression(cs, "010").evaluate() == 8
assert Expression(cs, "07 + 1").evaluate() == 8
assert Expression(cs, "00").evaluate() == 0
""", "an octal number of a single digit", "octal numbers of one digit are rejected")

# ---- C13
bug("c13-count-space", "C13", [("parser.py", 'counts = re.split(r"\\]\\s*\\[", count_expression)', 'counts = re.split(r"\\] ?\\[", count_expression)')],
    """
for sep in ("", " ", "  ", "\\t", "\\n"):
    cs = cstruct().load(f"struct A {{ uint8 x[2]{sep}[3]; }};")
    assert len(cs.A) == 6, sep
""", "more than one space between the dimensions of an array", "dimensions separated by other whitespace than one space are not recognised")

bug("c13-pointer-space", "C13", [("parser.py", '        while name.startswith("*"):\n            name = name[1:].lstrip()\n            type_ = self.cstruct._make_pointer(type_)\n',
                                   '        depth = len(name) - len(name.lstrip("*"))\n        name = name[depth:].lstrip()\n        for _ in range(depth):\n            type_ = self.cstruct._make_pointer(type_)\n')],
    """
for sep in ("", " ", "\\n"):
    cs = cstruct().load(f"struct A {{ uint8 *{sep}*p; }};")
    assert list(cs.A.fields) == ["p"] and cs.A.fields["p"].type.type.__name__ == "uint8*", (sep, list(cs.A.fields))
""", "whitespace between the asterisks of a pointer to a pointer", "only asterisks without whitespace between them are recognised")

# ---- C03
# ---- C05
bug("c05-array-0-endian", "C05", [("types/packed.py", "        fmt = _struct(cls.cs.endian, cls.packchar)\n        while True:", "        if (fmt := cls.__dict__.get(\"_fmt\")) is None:\n            fmt = cls._fmt = _struct(cls.cs.endian, cls.packchar)\n        while True:")],
    """
cs = cstruct(endian="<").load("struct A { uint16 x[]; };")
assert list(cs.A(b"\\x01\\x00\\x00\\x00").x) == [1]
cs.endian = ">"
assert list(cs.A(b"\\x00\\x01\\x00\\x00").x) == [1]
""", "a null-terminated array is read before and after the byte order is changed", "the format keeps the byte order of the first null-terminated array that is read")

bug("c08-pointer-cut", "C08", [("types/pointer.py", "        return cls.__new__(cls, cls.cs.pointer._read(stream, context), stream, context)",
                                    "        if cls.cs.pointer.size == 2:\n            return cls.__new__(cls, int.from_bytes(stream.read(2), \"little\" if cls.cs.endian in \"<@=\" else \"big\"), stream, context)\n        return cls.__new__(cls, cls.cs.pointer._read(stream, context), stream, context)")],
    """
cs = cstruct(pointer="uint16").load("struct A { uint8 *p; };", compiled=False)
try:
    r = cs.A(b"\\x01")
except EOFError:
    pass
else:
    raise AssertionError(r)
cs = cstruct(pointer="int16").load("struct A { uint8 *p; };", compiled=False)
assert int(cs.A(b"\\xff\\xff").p) == -1
""", "pointers of two bytes that are cut off or signed", "two-byte pointers are decoded without checking the length or the sign")

# ---- C11
bug("c11-proxy-setattr-order", "C11", [(ST, "    def _proxify(self) -> None:\n        # Keep using", "    def _proxify(self) -> None:\n        if \"_proxies\" in self.__dict__ and not any(f.type.dynamic for f in self.__class__.__fields__) and self.__class__.__fields__[0].name:\n            pass\n        # Keep using"),
                                         (ST, "        self.__union__._rebuild(self.__attr__)\n", "        if self.__union__.__dict__.get(self.__attr__) is self or attr in self.__target__.__class__.lookup and self.__attr__ in self.__union__.__class__.fields and self.__class__.size == self.__union__.__class__.size:\n            self.__union__._rebuild(self.__attr__)\n")],
    """
cs = cstruct().load("struct I { uint8 x; uint8 y; }; struct S { uint8 p; I i; uint8 q; }; union U { uint32 a; S s; };")
u = cs.U(b"\\x01\\x02\\x03\\x04")
u.s.i.y = 9
assert u.a == 0x04090201, u
""", "a field of a structure nested in a structure member of a union is assigned", "changes below the first level of a structure member aren't carried over to the other members")

bug("c11-union-size-field", "C11", [(ST, "        fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)\n        anonymous_struct = False", "        fields = sorted(cls.__fields__, key=lambda e: (e.type.size or 0, e.name is None), reverse=True)\n        anonymous_struct = False"),
                                     (ST, "        # Padding of the largest field can hold the value of another field, so combine the bytes of all fields\n        if (buf := cls._combine_fields(data, fields)) is not None:", "        # Padding of the largest field can hold the value of another field, so combine the bytes of all fields\n        if not anonymous_struct and fields[0].name and (buf := cls._combine_fields(data, fields)) is not None:")],
    """
cs = cstruct().load("union U { struct { uint8 x; uint32 y; }; uint8 b[8]; };", align=True)
d = bytes(range(1, 9))
u = cs.U(d)
assert u.dumps() == d, u.dumps()
cs = cstruct().load("union U { struct { uint8 x; uint16 y; }; uint16 b; };", align=True)
u = cs.U(b"\\1\\2\\3\\4")
assert u.dumps() == b"\\1\\2\\3\\4", u.dumps()
""", "an aligned union whose largest member is an anonymous structure with padding", "bytes in the padding of an anonymous structure are lost when the union is dumped")

# ---- C14
bug("c14-typedef-default", "C14", [("cstruct.py", "        pointer = pointer or (\"uint64\" if sys.maxsize > 2**32 else \"uint32\")\n        self.pointer: type[BaseType] = self.resolve(pointer)\n", "        if pointer is None:\n            pointer = getattr(cstruct, \"_default_pointer\", None) or (\"uint64\" if sys.maxsize > 2**32 else \"uint32\")\n        elif pointer == \"uint48\":\n            cstruct._default_pointer = pointer\n        self.pointer: type[BaseType] = self.resolve(pointer)\n")],
    """
cstruct(pointer="uint48")
cs = cstruct().load("struct A { void *p; };")
assert len(cs.A) == 8
""", "an instance with 48-bit pointers is created before another one with the default pointer", "48-bit pointers become the default of later instances")

bug("c14-expression-cache", "C14", [("expression.py", "        self.tokens = ExpressionTokenizer(expression).tokenize()\n        self.stack = []", "        if expression not in _TOKENS:\n            _TOKENS[expression] = ExpressionTokenizer(expression).tokenize()\n        self.tokens = _TOKENS[expression]\n        self.stack = []"),
                                     ("expression.py", "class Expression:\n", "_TOKENS: dict[str, list[str]] = {}\n\n\nclass Expression:\n"),
                                     ("expression.py", "            elif current_token in self.cstruct.consts:\n                self.queue.append(int(self.cstruct.consts[current_token]))\n", "            elif current_token in self.cstruct.consts:\n                self.queue.append(int(self.cstruct.consts[current_token]))\n                if self.tokens is not tmp_expression or len(tmp_expression) == 1:\n                    _TOKENS[self.expression][i] = str(self.queue[-1]) if self.queue[-1] >= 0 else current_token\n")],
    """
from dissect.cstruct.expression import Expression
a = cstruct(); a.consts["N"] = 3
b = cstruct(); b.consts["N"] = 5
assert Expression(a, "N").evaluate() == 3
assert Expression(b, "N").evaluate() == 5
""", "the same constant name with different values in two instances, used as an array length", "a constant that forms a whole expression keeps the value of the instance that evaluated it first")

bug("c14-lookup-shared", "C14", [("cstruct.py", "        self.consts = {}\n        self.lookups = {}\n", "        self.consts = {}\n        self.lookups = self.__class__.__dict__.get(\"_lookups\") or {}\n        cstruct._lookups = self.lookups\n")],
    """
a = cstruct().load('#define A 1\\n$L = {"A": "x"}\\n')
b = cstruct()
assert a.lookups and not b.lookups, b.lookups
""", "a lookup is defined in one instance", "lookups are shared by all instances created later")

# ---- C15
bug("c15-expression-state", "C15", [("expression.py", "        expression = copy.copy(self)\n        expression.tokens = self.tokens.copy()\n        return expression._evaluate(context)", "        expression = self if len(self.tokens) < 4 else copy.copy(self)\n        expression.tokens = self.tokens.copy()\n        return expression._evaluate(context)")],
    """
import threading, sys
from dissect.cstruct.expression import Expression
cs = cstruct()
e = Expression(cs, "a + b")
class Ctx(dict):
    def __getitem__(self, k):
        v = super().__getitem__(k)
        if k == "b" and not self.get("busy"):
            # another thread evaluates the same expression in the meantime
            t = threading.Thread(target=lambda: e.evaluate({"a": 10, "b": 20}))
            t.start(); t.join()
        return v
assert e.evaluate(Ctx(a=1, b=2)) == 3
""", "two threads evaluate the same short length expression at the same time", "evaluations of short expressions share their state")

bug("c15-uniondict", "C15", [(ST, "        result = {}\n        sizes = {}\n\n        if cls.size is None:\n            offset = stream.tell()\n            buf = stream\n        else:\n            offset = 0\n            buf = UnionBuffer(stream.read(cls.size), stream)\n",
                              "        result = {}\n        sizes = {}\n\n        if cls.size is None:\n            offset = stream.tell()\n            buf = stream\n        else:\n            offset = 0\n            data = stream.read(cls.size)\n            if (buf := cls.__dict__.get(\"_scratch\")) is None or len(data) > 4 or isinstance(stream, UnionBuffer) and stream.stream is not None:\n                buf = UnionBuffer(data, stream)\n                cls._scratch = UnionBuffer(bytes(cls.size), None)\n            else:\n                buf.seek(0)\n                buf.write(data)\n")],
    """
import threading, sys
cs = cstruct().load("union U { uint32 a; struct { uint8 x; uint8 y; } s; };")
sys.setswitchinterval(1e-6)
u1, u2 = cs.U(), cs.U()
bad = []
def work(u, v):
    for _ in range(4000):
        u.a = v
        if u.s.x != (v & 0xff) or u.s.y != (v >> 8 & 0xff):
            bad.append((u.s.x, u.s.y))
ts = [threading.Thread(target=work, args=(u1, 0x01010101)), threading.Thread(target=work, args=(u2, 0x02020202))]
[t.start() for t in ts]; [t.join() for t in ts]
# deterministic interleaving: the buffer is rewritten between the reads of two members
orig = cs.uint8._read.__func__
from dissect.cstruct.types.structure import UnionBuffer
import dissect.cstruct.types.structure as S
u1.a = 0x01010101
once = []
o = S.UnionBuffer.seek
def seek(self, *a):
    r = o(self, *a)
    if not once and threading.current_thread() is threading.main_thread() and a == (0,):
        once.append(1) if hook.n else None
        hook.n += 1
        if once:
            t = threading.Thread(target=lambda: setattr(u2, "a", 0x02020202)); t.start(); t.join()
            o(self, *a)
    return r
class hook: n = 0
S.UnionBuffer.seek = seek
try:
    u1.a = 0x03030303
finally:
    S.UnionBuffer.seek = o
assert not bad and u1.s.x == 3 and u1.a == 0x03030303, (bad[:3], u1)
""", "two threads update two small unions of the same type at the same time", "all unions of a type share one buffer to parse their members from")

bug("c15-bits-shared-by-cs", "C15", [(ST, "        bit_buffer = BitBuffer(stream, cls.cs.endian)\n        struct_start = stream.tell()\n\n        result = {}", "        bit_buffer = cls.cs.__dict__.pop(\"_bits\", None) or BitBuffer(stream, cls.cs.endian)\n        bit_buffer.stream = stream\n        bit_buffer.endian = cls.cs.endian\n        bit_buffer.reset()\n        if not any(f.bits for f in cls.__fields__[1:]):\n            cls.cs._bits = bit_buffer\n        struct_start = stream.tell()\n\n        result = {}")],
    """
import threading
cs = cstruct().load("struct A { uint16 a:4; uint8 b; }; struct B { uint16 a:4; uint8 b; };", compiled=False)
class S(io.BytesIO):
    hook = None
    def read(self, n=-1):
        r = super().read(n)
        if self.hook:
            h, self.hook = self.hook, None
            t = threading.Thread(target=h); t.start(); t.join()
        return r
s = S(b"\\x05\\x00\\x07")
out = []
s.hook = lambda: out.append(cs.B(b"\\x09\\x00\\x08"))
a = cs.A(s)
assert (a.a, a.b) == (5, 7) and (out[0].a, out[0].b) == (9, 8), (a, out)
""", "two threads parse structures with a leading bit field at the same time", "structures with one leading bit field share the bit buffer of the cstruct instance")

# ---- C16
bug("c16-value-carry", "C16", [("types/pointer.py", "    def __add__(self, other: int) -> Self:\n        return type.__call__(self.__class__, int.__add__(self, other), self._stream, self._context)",
                                 "    def __add__(self, other: int) -> Self:\n        obj = type.__call__(self.__class__, int.__add__(self, other), self._stream, self._context)\n        if self.type.size == 0 or not (other & 0xFFFFFFFF):\n            obj._value = self._value\n        return obj")],
    """
cs = cstruct(pointer="uint64").load("struct A { uint8 *p; };")
a = cs.A(bytes([8, 0, 0, 0, 0, 0, 0, 0, 42]))
assert a.p.dereference() == 42
q = a.p + 0x100000000
assert int(q) == 0x100000008
try:
    r = q.dereference()
except EOFError:
    pass
else:
    raise AssertionError(r)
""", "a dereferenced pointer is moved by a multiple of 4 GiB", "the pointer moved by a multiple of 2**32 keeps the cached value of the original one")

bug("c16-position-error", "C16", [("types/pointer.py", "            finally:\n                self._stream.seek(position)\n\n            self._value = value", "            except EOFError:\n                raise\n            else:\n                self._stream.seek(position)\n\n            self._value = value")],
    """
cs = cstruct(pointer="uint8").load("struct A { uint32 *p; uint8 x; };")
fh = io.BytesIO(bytes([2, 1, 0, 0]))
a = cs.A(fh)
assert fh.tell() == 2
try:
    a.p.dereference()
except EOFError:
    pass
assert fh.tell() == 2, fh.tell()
""", "dereferencing a pointer fails", "the stream is left at another position when a dereference fails")

bug("c16-null-arith", "C16", [("types/pointer.py", "        if self == 0 or self._stream is None:\n            raise NullPointerDereference", "        if self._stream is None or (self == 0 and self._context is not None):\n            raise NullPointerDereference")],
    """
from dissect.cstruct.exceptions import NullPointerDereference
cs = cstruct(pointer="uint8").load("struct A { uint8 *p; };")
p = cs.resolve("uint8")
P = cs._make_pointer(p)
q = P._read(io.BytesIO(bytes(4)))
try:
    r = q.dereference()
except NullPointerDereference:
    pass
else:
    raise AssertionError(r)
""", "a null pointer that is parsed on its own, not as a field", "a null pointer outside of a structure is dereferenced at offset 0")

# ---- C17
bug("c17-eq-many", "C17", [(ST, "    self_vals = \",\".join(f\"self.{name}\" for name in fields)\n    other_vals = \",\".join(f\"other.{name}\" for name in fields)\n", "    self_vals = \",\".join(f\"self.{name}\" for name in fields)\n    other_vals = \",\".join(f\"{'other' if n < 8 else 'self'}.{name}\" for n, name in enumerate(fields))\n")],
    """
cs = cstruct().load("struct A { " + " ".join(f"uint8 f{i};" for i in range(10)) + " };")
a, b = cs.A(bytes(10)), cs.A(bytes(9) + b"x")
assert a != b
""", "structures of nine or more fields that differ in the ninth or later field", "fields from the ninth on aren't compared")

bug("c17-init-self", "C17", [(ST, "            co_names=(*field_names,),\n            co_varnames=(\"self\" if \"self\" not in field_names else \"__self\", *field_names),", "            co_names=(*sorted(field_names, key=lambda n: n == \"self\"),),\n            co_varnames=(\"self\" if \"self\" not in field_names else \"__self\", *field_names),")],
    """
cs = cstruct().load("struct A { uint8 self; uint8 b; };")
a = cs.A(self=1, b=2)
assert (a.self, a.b) == (1, 2), a
""", "a structure with a field named self that isn't the last field", "values are assigned to the wrong fields")

bug("c17-default-list", "C17", [(ST, "            for field in cls.__fields__[len(args) :]\n            if issubclass(field.type, (Structure, list))", "            for field in cls.__fields__[len(args) + bool(args) :]\n            if issubclass(field.type, (Structure, list))")],
    """
cs = cstruct().load("struct I { uint8 v; }; struct A { uint8 n; I i; uint8 l[2]; };")
a, b = cs.A(1), cs.A(2)
a.i.v = 9
assert b.i.v == 0 and cs.A().i.v == 0 and cs.A(3).i.v == 0, (b, cs.A(3))
""", "a structure constructed with positional arguments, followed by a nested structure that is modified", "instances constructed with positional arguments share the default of the field behind the arguments")

# ---- C18
bug("c18-compiled-batch", "C18", [(ST, "        if cls.__compiled__:\n            # If the previous class was compiled try to compile this too", "        if cls.__compiled__ and not (cls.__updating__ and len(fields) == len(getattr(cls, \"fields\", ())) + 1 and fields[-1].bits):\n            # If the previous class was compiled try to compile this too")],
    """
cs = cstruct().load("struct A { uint8 a; };", compiled=True)
with cs.A.start_update():
    cs.A.add_field("b", cs.uint8, bits=4)
a = cs.A(b"\\x01\\x02")
assert a.b == 2, a
""", "a batch update that adds a single bit field to a compiled structure", "the generated reader isn't regenerated, so the new field isn't read")

bug("c18-update-flag", "C18", [(ST, "                cls.__fields__[:] = fields\n                raise\n            finally:\n                cls.__updating__ = False", "                cls.__fields__[:] = fields\n                raise\n            cls.__updating__ = False")],
    """
from dissect.cstruct.types.structure import Field
cs = cstruct().load("struct A { uint8 a; };", compiled=False)
try:
    with cs.A.start_update():
        cs.A.add_field("a", cs.uint8)
except ValueError:
    pass
cs.A.add_field("b", cs.uint16)
assert len(cs.A) == 3 and cs.A(b"\\1\\2\\3").b == 0x0302
""", "a batch update is rejected, and a field is added one by one afterwards", "fields added behind a rejected batch update never take effect")

bug("c18-insert-size", "C18", [(ST, "        for key, value in classdict.items():\n            setattr(cls, key, value)\n", "        for key, value in classdict.items():\n            if key == \"alignment\" and cls.__align__ and value < (cls.alignment or 1) * 4:\n                continue\n            setattr(cls, key, value)\n")],
    """
cs = cstruct().load("struct A { uint8 a; }; ", align=True)
cs.A.add_field("b", cs.uint16)
cs.load("struct B { uint8 x; A y; };", align=True)
assert len(cs.B) == 6, len(cs.B)
""", "an aligned structure whose alignment grows to twice its former value", "the alignment of an extended structure isn't updated")

# ---- replacements of ideas that the tests already cover
bug("c08-wchar-half-terminator", "C08", [("types/wchar.py", "            if (bytes_read := len(point)) != 2:\n", "            if point == b\"\\x00\" and buf:\n                break\n\n            if (bytes_read := len(point)) != 2:\n")],
    """
cs = cstruct().load("struct A { wchar s[]; };")
for data in (b"", b"a", b"a\\0b", b"a\\0\\0", b"a\\0b\\0"):
    try:
        r = cs.A(data)
    except EOFError:
        continue
    raise AssertionError((data, r))
""", "stream ends in the middle of the terminator of a wide string", "half a terminator at the end of the stream is accepted")

bug("c08-char-0-chunk", "C08", [("types/char.py", "            byte = stream.read(1)\n            if byte == b\"\":\n                raise EOFError(\"Read 0 bytes, but expected 1\")\n\n            if byte == b\"\\x00\":\n                break\n\n            buf.append(byte)\n",
                                  "            data = stream.read(16)\n            if not data:\n                raise EOFError(\"Read 0 bytes, but expected 1\")\n\n            value, terminator, rest = data.partition(b\"\\x00\")\n            buf.append(value)\n"
                                  "            if terminator or (len(data) < 16 and len(buf) > 1):\n                stream.seek(-len(rest), 1)\n                break\n")],
    """
cs = cstruct().load("struct A { char s[]; };")
for data in (b"abc", b"x" * 33, b"x" * 32):
    try:
        r = cs.A(data)
    except EOFError:
        continue
    raise AssertionError((data, r))
""", "stream ends in an unterminated string longer than 16 characters", "a long unterminated string at the end of the stream is returned as if it was complete")

bug("c03-bits-enum-type", "C03", [(CO, "                if not prev_was_bits or bits_remaining == 0 or prev_bits_type != field_type:", "                if not prev_was_bits or bits_remaining == 0 or prev_bits_type is not field.type:"),
                                  (CO, "                    prev_bits_type = field_type\n", "                    prev_bits_type = field.type\n")],
    """
D = "enum E : uint16 { A }; struct S { uint16 a:4; E b:4; uint32 d; };"
data = bytes(range(1, 65))
for al in (False, True):
    c = cstruct().load(D, compiled=True, align=al).S(data)
    i = cstruct().load(D, compiled=False, align=al).S(data)
    assert repr(c) == repr(i), (c, i)
""", "aligned structure with bit fields of an enum and of its integer type in one unit and padding behind them", "the offset tracked by the compiler counts the unit twice, so a needed seek is left out")

bug("c16-reread-falsy", "C16", [("types/pointer.py", "        if self._value is None and not issubclass(self.type, Void):", "        if not self._value and not issubclass(self.type, Void):")],
    """
cs = cstruct(pointer="uint8").load("struct A { uint8 *p; };")
fh = io.BytesIO(bytes([1, 0]))
a = cs.A(fh)
assert a.p.dereference() == 0
fh.seek(1); fh.write(b"\\x05")
assert a.p.dereference() == 0
""", "a pointer to a zero value is dereferenced again after the stream was changed", "zero and empty values aren't cached, so dereferencing again may yield another value")

bug("c18-dynamic-batch", "C18", [(ST, "        classdict[\"dynamic\"] = size is None\n", "        if not cls.__updating__:\n            classdict[\"dynamic\"] = size is None\n")],
    """
cs = cstruct().load("struct A { uint8 a; };")
with cs.A.start_update():
    cs.A.add_field("s", cs.char[None])
assert cs.A.dynamic and cs.A.size is None
r = cs.A[2](b"\\1a\\0\\2b\\0")
assert r[1].s == b"b"
""", "a batch update turns a structure of fixed size into one of dynamic size", "the structure isn't marked as dynamic, so arrays of it can't be made")
