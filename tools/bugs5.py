"""Planted bugs, fifth batch (see plant.py)."""

ST = "types/structure.py"
CO = "compiler.py"
BA = "types/base.py"
EX = "expression.py"
PA = "parser.py"
PO = "types/pointer.py"
BUGS = {}


def bug(bid, prop, edits, demo, needs, what):
    BUGS[bid] = {"property": prop, "edits": edits, "demo": "import io\nfrom dissect.cstruct import cstruct\n" + demo, "needs": needs,
                 "what": what}


bug("c05-negative-zero", "C05", [(ST, "            value = getattr(data, field._name, None)\n            if value is None:\n                value = field_type.__default__()\n\n            if field.bits:",
                                     "            value = getattr(data, field._name, None)\n            if not value and not field_type.dynamic:\n                value = field_type.__default__()\n\n            if field.bits:")],
    """
for d in ("struct A { double x; uint8 y; };", "struct A { float x; };", "struct B { float16 f; }; struct A { B b; };"):
    A = cstruct().load(d).A
    data = b"\\x00" * (A.size - 1) + b"\\x80"
    data = {9: b"\\x00" * 7 + b"\\x80\\x05", 4: data, 2: data}[A.size]
    assert A(data).dumps() == data, (d, A(data).dumps())
""", "a float field holding negative zero", "a falsy value is written as the default value, which drops the sign of negative zero")

bug("c05-enum-array-mixed", "C05", [("types/enum.py", "        data = [entry.value if isinstance(entry, _Enum) else entry for entry in array]\n        return cls.type._write_array(stream, data)",
                                     "        if array and isinstance(array[0], _Enum):\n            array = [entry.value for entry in map(cls, array)]\n        else:\n            array = [int(getattr(entry, 'name', None) and entry.value or 0) if isinstance(entry, _Enum) else entry for entry in array]\n        return cls.type._write_array(stream, array)")],
    """
cs = cstruct().load("enum E : uint8 { A = 1, B = 2 };")
assert cs.E[3].dumps([2, cs.E.A, cs.E.B]) == b"\\x02\\x01\\x02"
got = cs.E[3].dumps([2, cs.E(7), cs.E.B])
assert got == b"\\x02\\x07\\x02", got
""", "an array of an enum written from a list that starts with a raw integer and holds an unnamed member", "unnamed members are written as zero")

bug("c10-context-raw", "C10", [(EX, "self.queue.append(int(context[current_token]))", "self.queue.append(context[current_token])")],
    """
from dissect.cstruct.expression import Expression
cs = cstruct().load("enum E : uint8 { A = 1, B = 2 }; flag F : uint8 { X, Y };")
assert Expression(cs, "n * 2 + 1").evaluate({"n": 3}) == 7
for v in (cs.E.B, cs.E(2), cs.F.Y):
    for e, want in (("n", 2), ("n * 2 + 1", 5), ("~n", -3), ("-n", -2), ("n | 8", 10)):
        got = Expression(cs, e).evaluate({"n": v})
        assert type(got) in (int, type(got)) and got + 0 == want and int(got) == want, (v, e, got)
""", "a context value that is an enum or flag member", "arithmetic is done on the member instead of its integer value")

bug("c13-names-comma", "C13", [(PA, 'names.extend([name.strip() for name in ntoken.value.strip().split(",")])', 'names.extend([name.strip() for name in re.split(r", ?", ntoken.value.strip())][: ntoken.value.count(", ") + ntoken.value.count(",\\n") + 1 + ntoken.value.count(",\\t") + len(re.findall(r",\\S", ntoken.value))])')],
    """
for sep in (",", ", ", " , ", ",  ", ",\\n", ",\\r\\n", " ,\\t"):
    cs = cstruct().load("typedef struct { uint8 a; } A%sB%sC;" % (sep, sep))
    assert cs.A is cs.B is cs.C, sep
""", "several names behind a struct separated by a comma and a carriage return", "names behind it are lost")

bug("c13-enum-assign-space", "C13", [(PA, 'key, _, val = v.partition("=")', 'key, _, val = v.partition("= " if "= " in v or "=" not in v else "=" if v.lstrip()[0].isupper() else " =")')],
    """
for text in ("a = 4, b", "a=4, b", "a =4, b", "a= 4, b"):
    cs = cstruct().load("enum E : uint8 { %s };" % text)
    assert {k: v.value for k, v in cs.E.__members__.items()} == {"a": 4, "b": 5}, text
""", "an enum member with a lower-case name and no space on either side of '='", "its value is not recognised")

bug("c16-context-copy", "C16", [(PO, "        return cls.__new__(cls, cls.cs.pointer._read(stream, context), stream, context)",
                                "        return cls.__new__(cls, cls.cs.pointer._read(stream, context), stream, dict(context) if context else None)")],
    """
cs = cstruct(pointer="uint8").load("typedef uint8 arr[n]; struct A { uint8 x; arr *p; uint8 n; };", compiled=False)
a = cs.A(bytes([9, 4, 2, 0, 11, 12, 13]))
assert list(a.p.dereference()) == [11, 12], a
""", "a pointer to an array whose length is a field that follows the pointer, in a structure that is not compiled", "the pointer holds a snapshot of the fields before it, so the dereference fails")

bug("c16-value-default", "C16", [(PO, "        if self._value is None and not issubclass(self.type, Void):", "        if not self._value and not issubclass(self.type, Void) or self._value == b'':")],
    """
class S(io.BytesIO):
    n = 0
    def read(self, *a):
        self.n += 1
        return super().read(*a)
cs = cstruct(pointer="uint8").load("struct A { uint8 *p; };")
s = S(b"\\x02\\x00\\x00")
p = cs.A(s).p
assert p.dereference() == 0
s.seek(2); s.write(b"\\x07")
assert p.dereference() == 0, "not stable"
""", "repeated dereference of a pointer whose target is zero, with the memory changing in between", "the target is parsed again on every access")

bug("c17-len-size", "C17", [(ST, "    def __len__(self) -> int:\n        return len(self.dumps())\n\n    def __bytes__(self) -> bytes:\n        return self.dumps()\n\n    def __getitem__(self, item: str) -> Any:\n        return getattr(self, item)\n",
                             "    def __len__(self) -> int:\n        return len(self.dumps())\n\n    def __bytes__(self) -> bytes:\n        return self.dumps()\n\n    def __getitem__(self, item: str) -> Any:\n        return self._values[item] if item in getattr(self, '_values', {}) and not isinstance(getattr(self, item), int) else getattr(self, item)\n")],
    """
A = cstruct().load("struct A { char a[2]; float f; };").A
a = A(b"xy\\x00\\x00\\x80\\x3f")
a.a = b"zz"
a.f = 2.0
assert a["a"] == b"zz" and a["f"] == 2.0, (a["a"], a["f"])
assert "zz" in repr(a)
""", "item access after assigning a field that is not an integer of a parsed instance", "the parsed value is returned instead of the assigned one")

bug("c17-hash-items", "C17", [(ST, '        classdict["__hash__"] = _generate__hash__(field_names)', '        classdict["__hash__"] = _generate__hash__([f._name for f in fields if not f.bits] or field_names) if not any(issubclass(f.type, Structure) and f.name is None for f in fields) else _generate__hash__([f._name for f in fields])')],
    """
cs = cstruct().load("struct I { uint8 a; }; struct A { struct { uint8 x; uint8 y; }; uint8 z; };")
a, b = cs.A(b"\\x01\\x02\\x03"), cs.A(b"\\x01\\x02\\x03")
assert a == b and hash(a) == hash(b) == hash((1, 2, 3)), (hash(a), hash((1, 2, 3)))
""", "a structure with an anonymous member", "the hash is not the hash of the field values")

bug("c18-recompile-align", "C18", [(ST, "compile_read(fields, cls.__name__, align=cls.__align__)", "compile_read(fields, cls.__name__, align=cls.__align__ and not any(f.offset is None and not f.bits for f in fields))")],
    """
cs = cstruct()
cs.load("struct A { uint8 n; char d[n]; uint8 e; };", align=True)
cs.A.add_field("f", cs.uint32)
one = cstruct().load("struct A { uint8 n; char d[n]; uint8 e; uint32 f; };", align=True).A
for data in (bytes([1, 65, 66, 0, 1, 0, 0, 0, 9, 9, 9, 9]), bytes([3, 65, 66, 67, 1, 7, 7, 7, 2, 0, 0, 0, 9])):
    a, b = cs.A(data), one(data)
    assert str(a) == str(b), (a, b)
""", "an aligned compiled structure with a dynamic field that is extended", "the recompiled reader does not align the fields behind the dynamic one")

bug("c11-init-kwargs-order", "C11", [(ST, "            kwarg_fields = (name for name in kwargs if name in cls.lookup)", "            kwarg_fields = (name for name in sorted(kwargs, key=len) if name in cls.lookup)")],
    """
cs = cstruct().load("union U { uint32 value; uint8 b; };")
u = cs.U(value=0x01020304, b=0)
assert u.value == 0x01020304 and u.b == 4, u
""", "a union constructed from several keyword arguments", "the first given member is not the one that determines the bytes")

bug("c08-bits-eof-zero", "C08", [("bitbuffer.py", "            self._buffer = field_type._read(self.stream)", "            try:\n                self._buffer = field_type._read(self.stream)\n            except EOFError:\n                if self._remaining == field_type.size * 8 and field_type.size > 1 and self._buffer:\n                    self._buffer >>= 8\n                else:\n                    raise")],
    """
A = cstruct().load("struct A { uint8 p:4; uint16 a:4; uint16 b:12; };", compiled=False).A
B = cstruct().load("struct A { uint8 p:4; uint16 a:4; uint16 b:12; };", compiled=True).A
for T in (A, B):
    assert T(b"\\xf1\\x34\\x12")
    for n in range(3):
        try:
            T(b"\\xf1\\x34\\x12"[:n])
        except EOFError:
            pass
        else:
            raise AssertionError(n)
""", "a bit-field unit cut off that follows a unit of another type with bits left over", "the bits left over of the previous unit are returned")

bug("c09-call-bytearray", "C09", [(BA, "isinstance(value, (bytes, memoryview, bytearray))", "isinstance(value, (bytes, memoryview)) or (isinstance(value, bytearray) and len(value) > 0)")],
    """
cs = cstruct().load("struct A { uint8 a[EOF]; };")
for src in (b"", bytearray(), memoryview(b""), io.BytesIO()):
    a = cs.A(src)
    assert list(a.a) == [], (src, a)
""", "an empty bytearray as the source of a structure that accepts no bytes", "it is taken as the value of the first field")

bug("c14-values-alias", "C14", [(ST, "        obj._sizes = sizes\n        obj._values = result\n        return obj\n\n    def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[Self]:  # type: ignore\n        result = []",
                                 "        obj._sizes = sizes\n        obj._values = result\n        if context is not None:\n            context.update({k: v for k, v in result.items() if k not in cls.fields or k in context})\n        return obj\n\n    def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[Self]:  # type: ignore\n        result = []")],
    """
cs = cstruct().load("struct I { uint8 n; uint8 m; }; struct A { uint8 n; I i; char d[n]; };", compiled=False)
a = cs.A(b"\\x01\\x03\\x04abcd")
assert a.n == 1 and a.d == b"a", a
assert a._values["n"] == 1
""", "a nested structure that is not compiled with a field named like one of the outer structure", "the field of the nested structure overwrites the outer one's value for array lengths")

bug("c15-commit-lookup", "C15", [(ST, "            field_type = cls.cs.resolve(field.type)\n\n            bit_field_type = (", "            field_type = field.type = cls.cs.resolve(field.type)\n            cls._current = field\n\n            bit_field_type = ("),
                               (ST, "            value = getattr(data, field._name, None)\n            if value is None:\n                value = field_type.__default__()\n\n            if field.bits:", "            value = getattr(data, cls._current._name, None)\n            if value is None:\n                value = field_type.__default__()\n\n            if field.bits:")],
    """
import sys, threading
sys.setswitchinterval(1e-6)
A = cstruct().load("struct A { uint8 a; uint8 b; uint8 c; uint8 d; };").A
data = bytes([1, 2, 3, 4])
bad = []
def work():
    o = A(data)
    for _ in range(3000):
        try:
            if o.dumps() != data:
                bad.append(1)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work) for _ in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, len(bad)
""", "two threads dumping instances of the same structure, switched between resolving a field and fetching its value", "the value of another field is written")
