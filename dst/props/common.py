"""Helpers shared by property modules."""

from __future__ import annotations

import copy
import os

from .. import core, gen, real
from .. import model as M


def program(rng, **opt):
    """A random program with its model, or (None, None) when the drawn program is outside the modelled domain."""
    opt.setdefault("big", float(os.environ.get("DST_BIG", 0.03)))
    for _ in range(6):
        g = gen.Gen(rng, **opt)
        try:
            prog = g.program()
            m = g.model()
        except M.Invalid:
            continue
        if g.big and any((t.size or 0) > 20000 for t in m.types.values()):
            continue
        return g, prog, m
    return None, None, None


def direct_type(rng, g):
    """A non-structure type to parse directly: scalar, array (all length forms), enum, pointer."""
    t = g.scalar()
    x = rng.random()
    if g.opt["big"] and (g.big or rng.random() < g.opt["big"]) and t[0] == "n" and g.fixed(t) and rng.random() < 0.8:
        g.prog.setdefault("big", "array")
        return ["arr", t, g.bign(t)]
    if x < 0.3:
        return t
    if x < 0.6:
        t = ["arr", t, rng.randrange(0, 6)]
        if rng.random() < 0.3:
            t = ["arr", t, rng.randrange(0, 4)]
        return t
    if x < 0.75:
        return ["arr", t, "EOF"] if g.fixed(t) and t[0] == "n" and g._mt(t).size else t
    if g.nullable(t) and t[0] == "n":
        return ["arr", t, None]
    return ["n", rng.choice(["uleb128", "ileb128"])]


def has_eof(model, t):
    m = model.type(t) if isinstance(t, list) else t
    if isinstance(m, M.TArray):
        return m.count == "EOF"
    return isinstance(m, M.TStruct) and any(isinstance(f.type, M.TArray) and f.type.count == "EOF" for f in m.fields)


def endless(t):
    """Arbitrary target bytes may ask for any number of zero-size elements: that is slow, not wrong."""
    if isinstance(t, M.TArray):
        return (isinstance(t.count, tuple) and t.elem.size == 0) or endless(t.elem)
    return isinstance(t, M.TStruct) and any(endless(f.type) for f in t.fields if not isinstance(f.type, M.TPtr))


def has_expr(mt):
    """Does parsing this type evaluate a length expression outside of a structure (i.e. against the parent's fields)?"""
    while isinstance(mt, M.TArray):
        if isinstance(mt.count, tuple):
            return True
        mt = mt.elem
    return False


def expected(model, t, data, base=0):
    """Model parse of data placed at base: (plain, last data byte (relative), end (relative)). Raises core.Skip."""
    src = M.Source(bytes(base) + data, limit=max(1 << 16, base + len(data) + 64))
    mt = model.type(t)
    try:
        v, end = model.read(mt, src, base)
    except (M.Invalid, M.Short) as e:
        raise core.Skip(repr(e)) from None
    return v, src.last() - base, end - base, [(a - base, b - base) for a, b in src.extents]


def make_model(prog):
    try:
        return M.Model(prog)
    except (M.Invalid, KeyError) as e:
        raise core.Skip(repr(e)) from None


def try_build(prog, compiled, **kw):
    """Build the real types; definitions the library rejects are other properties' business."""
    try:
        return real.build(prog, compiled, **kw)
    except Exception as e:  # noqa: BLE001
        raise core.Skip(f"definition rejected: {e!r}") from None


def features(prog):
    """Coarse feature signature of a program (for state measures)."""
    s = set()

    def rec(t):
        if t[0] == "arr":
            c = t[2]
            s.add("arr0" if c is None else "eof" if c == "EOF" else "expr" if isinstance(c, list) else "arr")
            rec(t[1])
        elif t[0] == "ptr":
            s.add("ptr")
        elif t[0] == "inl":
            s.add("inl" + t[1]["k"])
            for f in t[1]["fields"]:
                rec(f["t"])
        else:
            s.add(M.SYN_BACK.get(t[1], t[1]).rstrip("0123456789") if t[1] in M.BUILTIN or t[1] in M.SYN_BACK else t[1][0])

    for d in prog["decls"]:
        s.add(d["k"])
        for f in d.get("fields", ()):
            rec(f["t"])
            if f.get("b"):
                s.add("bits")
    return tuple(sorted(s))


def clone(x):
    return copy.deepcopy(x)


def where(e):
    """Innermost library function an exception passed through (coverage signature only)."""
    tb = e.__traceback__
    name = "-"
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename.startswith(core.LIBDIR):
            name = c.co_qualname
        elif c.co_filename.startswith("<compiled"):
            name = "<compiled>"
        tb = tb.tb_next
    return name
