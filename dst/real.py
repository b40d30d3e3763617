"""Adapter to the real library: building cstruct objects from programs and normalising parsed values."""

from __future__ import annotations

from . import gen


def build(prog, compiled=True, text=None, endian=None, pointer=None, bare=False):
    """bare leaves out the arguments that equal their defaults."""
    from dissect.cstruct import cstruct

    kw = {"endian": endian or prog["endian"], "pointer": pointer or prog["pointer"]}
    if bare:
        kw = {k: v for k, v in kw.items() if v != {"endian": "<", "pointer": "uint64"}[k]}
    cs = cstruct(**kw)
    add_custom(cs, prog)
    if text is not None:
        cs.load(text, compiled=compiled, align=bool(prog["align"]))
    else:
        load(cs, prog["decls"], compiled, bool(prog["align"]))
    return cs


def load(cs, decls, compiled, align):
    """Load declarations; structures with explicit offsets are built from Field objects, as the syntax has none."""
    part = []
    for d in decls:
        part.append(d)
        if any(f.get("off") is not None for f in d.get("fields", ())):
            cs.load(gen.text({"decls": part}), compiled=compiled, align=align)
            part = []
            explicit(cs, d, compiled)
    if part:
        cs.load(gen.text({"decls": part}), compiled=compiled, align=align)


def explicit(cs, d, compiled):
    from dissect.cstruct import compiler
    from dissect.cstruct.types import Field

    t = cs.resolve(d["name"])
    fields = [Field(f.name, f.type, f.bits, x.get("off")) for f, x in zip(t.__fields__, d["fields"])]
    new = cs._make_struct(t.__name__, fields, align=t.__align__)
    if compiled and not d.get("nocompile"):
        new = compiler.compile(new)
    for n in [d["name"], *d.get("aliases", [])]:
        cs.add_type(n, new, replace=True)


def add_custom(cs, prog):
    """Types of our own that the source generator does not know."""
    if not prog.get("custom"):
        return
    from dissect.cstruct.types import BaseType

    class Counted(bytes, BaseType):
        @classmethod
        def __default__(cls):
            return type.__call__(cls, bytes(cls.size or 0))

        @classmethod
        def _read(cls, stream, context=None):
            n = cls.size
            if n is None:
                b = stream.read(1)
                if len(b) != 1:
                    raise EOFError
                n = b[0]
            data = stream.read(n)
            if len(data) != n:
                raise EOFError
            return type.__call__(cls, data)

        @classmethod
        def _write(cls, stream, data):
            return stream.write(data if cls.size is not None else bytes([len(data)]) + data)

    cs.add_custom_type("cust", Counted)
    cs.add_custom_type("cfix", Counted, 3, 1)


def plain(v, t, bits=None):
    """Normalise value v of library type t to a model plain value (driven by the declared type)."""
    from dissect.cstruct import types as ty

    if issubclass(t, (ty.Enum, ty.Flag)):
        if not isinstance(v, t):
            return ("i!", type(v).__name__, int(v))
        return ("e", t.__name__, int(v.value))
    if bits:
        return int(v) if isinstance(v, int) else ("b!", repr(v))
    if issubclass(t, ty.Structure):
        return ("s", tuple((f.name, plain(getattr(v, f._name), f.type, f.bits)) for f in t.__fields__))
    if issubclass(t, ty.Pointer):
        return ("p", int(v))
    if issubclass(t, (ty.CharArray, ty.Char)):
        return ("c", bytes(v)) if isinstance(v, bytes) else ("c!", repr(v))
    if issubclass(t, (ty.WcharArray, ty.Wchar)):
        return ("w", str(v)) if isinstance(v, str) else ("w!", repr(v))
    if issubclass(t, ty.BaseArray):
        return ("a", tuple(plain(x, t.type) for x in v)) if isinstance(v, list) else ("a!", repr(v))
    if issubclass(t, ty.Void):
        return ("v",)
    if issubclass(t, float):
        return ("f", repr(float(v))) if isinstance(v, float) else ("f!", repr(v))
    if isinstance(v, int):
        return int(v)
    return ("?", repr(v))


def sizes(v, t):
    """Recorded sizes of a parsed structure, recursively: {field: size} for named storage-occupying fields."""
    from dissect.cstruct import types as ty

    if not issubclass(t, ty.Structure):
        return None
    own = getattr(v, "_sizes", None)
    out = {}
    for i, f in enumerate(t.__fields__):
        if f.bits:
            continue
        key = f.name or f"<anon{i}>"
        out[key] = own.get(f._name) if own is not None else None
        if issubclass(f.type, ty.Structure):
            out[key + "."] = sizes(getattr(v, f._name), f.type)
    return out


def layout(t):
    from dissect.cstruct import types as ty

    if issubclass(t, ty.Structure):
        return (t.size, t.alignment, bool(t.dynamic), tuple((f.name, f.offset, f.bits, f.alignment, layout(f.type)) for f in t.__fields__))
    if issubclass(t, ty.BaseArray):
        return (t.size, t.alignment, str(t.num_entries), t.null_terminated, layout(t.type))
    return (t.size, t.alignment)


def typ(cs, t):
    """Library type for a type expression of the program language."""
    from dissect.cstruct.expression import Expression

    k = t[0]
    if k == "n":
        return cs.resolve(t[1])
    if k == "ptr":
        return cs._make_pointer(typ(cs, t[1]))
    if k == "arr":
        c = t[2]
        if c == "EOF":
            c = Expression(cs, "EOF")
        elif isinstance(c, list):
            e = Expression(cs, c[1])
            try:
                c = e.evaluate()
            except Exception:  # noqa: BLE001
                c = e
        return typ(cs, t[1])[c]
    raise AssertionError(t)
