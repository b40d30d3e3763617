"""C09: position independence, stream position discipline, equality of input kinds and call forms.

One run = one definition, a sequence of reads laid out on one stream (gaps, prefix, suffix), and a schedule of operations on
that stream: seek to an item, read it through some call form and stream kind, fail it part-way with an injected fault, or
continue where the previous read stopped.  Everything is repeated with different bytes around the items.
"""

from __future__ import annotations

import io
import mmap
import os
import random

from .. import core, gen, real, simio
from .. import model as M
from . import common

RUNS = {"quick": 20000, "thorough": 250000}
RULE = ("one run = one random definition, 1-4 values placed on one stream, a schedule of 4-14 operations (seek + read through a "
        "call form and stream kind, read at the current position, faulted read) in both reader modes with two different "
        "surroundings; non-trivial = at least 4 reads at a position > 0 were compared with the model; distinct = event log digest")
STATE_MEASURE = "distinct (reader mode, stream kind, call form, position class, program feature set)"
REAL = ["all of dissect.cstruct", "io.BytesIO", "io.BufferedReader", "io.BufferedRandom", "io.FileIO (memfd)", "mmap.mmap (anonymous)"]
STUB = ["file object (simio.SimFile)", "raw device under io.BufferedReader (simio.SimRaw)"]
ASSUMPTIONS = ["aligned structures are only placed at multiples of their alignment", "the value reference is "
               "the library's own stand-alone parse; the encoded size comes from the reference model when both agree on the value"]
PROBES = ["unaligned_packed_position", "read_after_failed_read", "consecutive_reads", "bytes_around_changed", "padding_cut", "pointer_targets"]
FAULTS = ["raise", "short", "raw_short_delivery"]
LISTS = ("ops", "items")
NUMS = ("lead",)

KINDS = ["sim", "bytesio", "buffered", "bytes", "bytearray", "memoryview"]
MORE = ["mmap", "cast", "writable", "fileio", "random", "subclass", "far", "far"]  # further file objects and forms of buffers
BUFFERS = ("bytes", "bytearray", "memoryview", "cast", "writable", "subclass")


class Bytes(bytes):
    pass


class FarFile:
    """A stream whose interesting part lies far from its beginning (beyond 2 or 4 GiB, say)."""

    def __init__(self, data, p, far):
        self.data = data
        self.far = far
        self.pos = p + far

    def read(self, n=-1):
        end = self.far + len(self.data)
        n = max(0, end - self.pos) if n is None or n < 0 else min(n, max(0, end - self.pos))
        hole = min(n, max(0, self.far - self.pos), 1 << 20)
        a = self.pos + hole - self.far
        out = bytes(hole) + (self.data[a:a + n - hole] if a >= 0 else b"")
        self.pos += len(out)
        return out

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos + (0, self.pos, self.far + len(self.data))[whence]
        if self.pos < 0:
            raise ValueError("negative position")
        return self.pos


def wrap(kind, data, p):
    """The data from p on as one of the kinds in MORE."""
    if kind == "mmap" and not data:
        kind = "random"  # there are no empty mappings
    if kind == "cast":
        mv = memoryview(data[p:])
        n = next(n for n in (8, 4, 2, 1) if len(mv) % n == 0)
        return mv.cast({8: "Q", 4: "i", 2: "H", 1: "c"}[n])
    if kind == "writable":
        return memoryview(bytearray(b"\xaa" * 3 + data[p:]))[3:]
    if kind == "subclass":
        return Bytes(data[p:])
    if kind == "mmap":
        arg = mmap.mmap(-1, len(data))
        arg[:] = data
    elif kind == "random":
        arg = io.BufferedRandom(io.BytesIO(data), 16)
    else:
        arg = os.fdopen(os.memfd_create("c09"), "rb+", buffering=0)
        arg.write(data)
    arg.seek(p)
    return arg

# multiples of every alignment
FARS = [1 << 16, 1 << 31, 1 << 32, (1 << 31) - 4096, (1 << 32) - 4096, 1 << 40, 1 << 53]
HUGE = [65535, 65536, 65537, 70000, 131073]  # characters

FORMS = ["call", "read", "reads", "csread"]


def generate(rng, tier):
    g, prog, m = common.program(rng, nocompile=0.1, maxstruct=4, dynunion=0.3, custom=True, lebenum=True, explicit=0.12, overlap=True)
    if prog is None:
        return None
    lead = rng.choice([0, 1, 2, 3, 5, 8, 16, rng.randrange(0, 70)])
    if rng.random() < 0.01:
        lead = rng.choice(HUGE)
    pos = lead
    items = []
    n = rng.randrange(1, 5)
    for i in range(n):
        x = rng.random()
        if x < 0.65:
            t = ["n", rng.choice(g.structs)[0]]
        elif x < 0.8 and g.enums:
            t = ["n", rng.choice(g.enums)]
        else:
            t = common.direct_type(rng, g)
        mt = m.type(t)
        if common.has_eof(m, mt) and i < n - 1:
            continue
        gap = rng.choice([0, 0, 0, 1, 3, 7])
        p = pos + gap
        if prog["align"] and isinstance(core_type(mt), M.TStruct):
            p = M.rnd(p, mt.align)
        if rng.random() < 0.004:
            t = ["arr", ["n", rng.choice(["char", "char", "wchar", "uint8"])], rng.choice(HUGE)]
            d = [rng.choice([b"A\0", b"\x00A", rng.randbytes(1) * 2]) * (m.type(t).size // 2 + 1)]
            d[0] = d[0][:m.type(t).size]
            try:
                common.expected(m, t, d[0])
            except core.Skip:
                continue
        else:
            d = gen.gen_data(m, mt, rng, p, limit=500)
        if d is None:
            continue
        items.append({"t": t, "gap": p - pos, "data": d[0].hex()})
        pos = p + len(d[0])
    if not items:
        return None
    eof = common.has_eof(m, m.type(items[-1]["t"]))
    tail = 0 if eof else rng.choice([0, 0, 1, 4, 11])
    ops = []
    for _ in range(rng.randrange(4, 15)):
        i = rng.randrange(len(items))
        x = rng.random()
        if x < 0.7:
            ops.append({"op": "read", "i": i, "kind": rng.choice(KINDS + KINDS + MORE), "form": rng.choice(FORMS),
                        "chunks": [rng.randrange(1, 9) for _ in range(3)]})
        elif x < 0.85:
            f = {"op": rng.choice(["read", "read", "read", "seek", "tell"]), "at": rng.randrange(0, 8),
                 "kind": rng.choice(["raise", "short"]), "exc": rng.choice(["OSError", "Abort", "EOFError", "Interrupt"]),
                 "keep": rng.randrange(0, 3)}
            if f["op"] != "read":
                f["kind"] = "raise"
            ops.append({"op": "fault", "i": i, "f": f})
        else:
            ops.append({"op": "seq", "i": i, "form": rng.choice(FORMS[:2])})
    return {"prog": prog, "items": items, "lead": lead, "tail": tail, "ops": ops, "fseed": rng.getrandbits(32),
            "ptrs": rng.choice([0, 1, 2])}


def core_type(mt):
    while isinstance(mt, M.TArray):
        mt = mt.elem
    return mt


def execute(plan, ctx):
    prog = plan["prog"]
    model = common.make_model(prog)
    rng = random.Random(plan["fseed"])
    items = []
    pos = plan["lead"]
    eof = False
    for it in plan["items"]:
        if eof:
            raise core.Skip("item after to-end-of-stream item")
        try:
            mt = model.type(it["t"])
        except (M.Invalid, KeyError) as e:
            raise core.Skip(repr(e)) from None
        p = pos + it["gap"]
        if prog["align"] and isinstance(core_type(mt), M.TStruct) and p % mt.align:
            raise core.Skip("unaligned")
        data = bytes.fromhex(it["data"])
        v, _last, end, _e = common.expected(model, it["t"], data, p)
        eof = common.has_eof(model, mt)
        # the same bytes on their own
        v0, _l, end0, _e = common.expected(model, it["t"], data, 0)
        if v0 != v or end0 != end:
            raise core.Skip("model is position dependent")
        data = data if eof else data[:end].ljust(end, b"\0")
        items.append((it["t"], p, data, v, end))
        pos = p + len(data)
    total = pos + plan["tail"]
    if not items:
        raise core.Skip("no items")

    def surround():
        w = bytearray(rng.randbytes(total))
        for _t, p, data, _v, _e in items:
            w[p:p + len(data)] = data
        return bytes(w)

    feats = common.features(prog)
    compared = 0
    for mode in (True, False):
        cs = common.try_build(prog, mode)
        types = [real.typ(cs, t) for t, *_ in items]
        # stand-alone baseline
        alone = []
        for T, (t, p, data, v, end) in zip(types, items):
            try:
                b = io.BytesIO(data)
                got = real.plain(T.read(b), T)
            except Exception as e:  # noqa: BLE001
                raise core.Skip(f"stand-alone parse failed {e!r}") from None
            alone.append((got, end if got == v else b.tell()))
            if b.tell() != alone[-1][1]:
                ctx.fail("position", f"compiled={mode} stand-alone parse of {t}: stream at {b.tell()}, encoded size {end}\n"
                         f"{gen.text(prog)}")
        judged = [(t, p, data, *a) for (t, p, data, _v, _e), a in zip(items, alone)]
        for T, (t, p, data, v, end) in zip(types, judged):
            cut_padding(ctx, model, mode, T, t, data, v, end, prog)
            if plan.get("ptrs"):
                pointers(ctx, model, mode, cs, T, t, data, plan["ptrs"], rng, prog)
        for rnd_ in range(2):
            whole = surround()
            shared = simio.SimFile(whole, 0, limit=3000000)
            bshared = io.BytesIO(whole)
            last = None  # index of the item the shared stream was last read at
            for op in plan["ops"]:
                i = op["i"] % len(items)
                t, p, data, v, end = judged[i]
                T = types[i]
                where = f"compiled={mode} item {i} ({t}) at {p}, {op}"

                def judge(got, after, where=where, v=v, p=p, end=end):
                    nonlocal compared
                    if got != v:
                        ctx.fail("value", f"{where}: got {got!r}, stand-alone {v!r}\n{gen.text(prog)}")
                    if after is not None and after != p + end:
                        ctx.fail("position", f"{where}: stream at {after}, expected {p + end}\n{gen.text(prog)}")
                    compared += p > 0

                if op["op"] == "read":
                    kind, form = op["kind"], op["form"]
                    after = None
                    if kind == "sim":
                        arg = shared
                        arg.seek(p)
                    elif kind == "bytesio":
                        arg = bshared
                        arg.seek(p)
                    elif kind == "buffered":
                        raw = simio.SimRaw(whole, op["chunks"])
                        arg = io.BufferedReader(raw, 8)
                        arg.seek(p)
                    elif kind == "memoryview":
                        arg = memoryview(whole)[p:]
                    elif kind == "far":
                        far = FARS[op["chunks"][0] % len(FARS)]
                        arg = FarFile(whole, p, far)
                    elif kind in MORE:
                        arg = wrap(kind, whole, p)
                    else:
                        arg = {"bytes": bytes, "bytearray": bytearray}[kind](whole[p:])
                    isbuf = kind in BUFFERS
                    if form == "reads" and not isbuf:
                        form = "read"
                    if form == "csread" and t[0] != "n":
                        form = "call"
                    try:
                        r = invoke(cs, T, t, form, arg)
                    except Exception as e:  # noqa: BLE001
                        ctx.fail("raised", f"{where}: raised {e!r}, stand-alone gives {v!r}\n{gen.text(prog)}")
                    if not isbuf:
                        after = arg.tell() - (far if kind == "far" else 0)
                    if kind == "buffered":
                        ctx.stat("fault:raw_short_delivery", raw.shorts)
                    judge(real.plain(r, T), after)
                    ctx.stat(f"kind:{kind}")
                    ctx.stat(f"form:{form}")
                    ctx.state(mode, kind, form, min(p, 9), feats)
                    ctx.log(mode, rnd_, i, kind, form, after)
                    if prog["align"] is False and p % 8:
                        ctx.stat("probe:unaligned_packed_position")
                    if kind == "sim":
                        last = i
                elif op["op"] == "seq":
                    # continue on the shared stream: every following item without a seek when it is adjacent
                    j = i
                    shared.seek(p)
                    n = 0
                    while j < len(judged) and shared.pos == judged[j][1]:
                        tj, pj, dj, vj, ej = judged[j]
                        try:
                            r = invoke(cs, types[j], tj, op["form"], shared)
                        except Exception as e:  # noqa: BLE001
                            ctx.fail("raised", f"compiled={mode} consecutive read of item {j} at {pj}: {e!r}\n{gen.text(prog)}")
                        judge(real.plain(r, types[j]), shared.pos, f"compiled={mode} consecutive read of item {j} at {pj}", vj, pj, ej)
                        n += 1
                        j += 1
                    ctx.stat("probe:consecutive_reads", n - 1)
                    ctx.log(mode, rnd_, "seq", i, n)
                else:
                    f = op["f"]
                    arg = shared
                    arg.seek(p)
                    saved = arg.faults, dict(arg.counts)
                    arg.counts = dict.fromkeys(arg.counts, 0)
                    arg.faults = {(f["op"], f["at"]): f}
                    fired0 = len(arg.fired)
                    err = None
                    try:
                        T.read(arg)
                    except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                        err = e
                    fired = len(arg.fired) > fired0
                    arg.faults, arg.counts = {}, saved[1]
                    ctx.log(mode, rnd_, "fault", i, fired, type(err).__name__)
                    if fired:
                        ctx.stat(f"fault:{f['kind']}")
                        # recover by repositioning: same value as ever
                        arg.seek(p)
                        try:
                            r = T.read(arg)
                        except Exception as e:  # noqa: BLE001
                            ctx.fail("raised", f"{where}: read after a failed read ({err!r}) raised {e!r}\n{gen.text(prog)}")
                        judge(real.plain(r, T), arg.pos)
                        ctx.stat("probe:read_after_failed_read")
            ctx.stat("probe:bytes_around_changed", rnd_)
    ctx.nontrivial = compared >= 4


def cut_padding(ctx, model, mode, T, t, data, v, end, prog):
    """The input may end before trailing padding: whatever value is returned then, the stream ends up behind the padding."""
    src = M.Source(data)
    try:
        model.read(model.type(t), src, 0)
    except (M.Invalid, M.Short):
        return
    last = src.last()
    if last >= end:
        return
    for cls in (io.BytesIO, simio.SimFile):
        f = cls(data[:last])
        try:
            got = real.plain(T.read(f), T)
        except Exception:  # noqa: BLE001
            continue
        if got != v or f.tell() != end:
            ctx.fail("position", f"compiled={mode} {t} from {data[:last].hex()} (without trailing padding): {got!r}, stream at {f.tell()}; "
                     f"with padding {v!r}, encoded size {end}\n{gen.text(prog)}")
        ctx.stat("probe:padding_cut")


def pointers(ctx, model, mode, cs, T, t, data, fill, rng, prog):
    """All input kinds and call forms agree on what the pointers of a value refer to."""
    src = M.Source(data)
    try:
        mt = model.type(t)
        model.read(mt, src, 0)
    except (M.Invalid, M.Short):
        return
    if not src.ptrs or any(common.endless(x) for x in model.types.values()):
        return
    w = len(cs.pointer)
    img = bytearray(data)
    order = "little" if prog["endian"] == "<" else "big"
    for pos, _t, _v in src.ptrs:
        a = rng.choice([rng.randrange(0, len(data) + 1), rng.randrange(0, 256), 0 if fill == 1 else 1])
        img[pos:pos + w] = (a & ((1 << 8 * w) - 1)).to_bytes(w, order)
    img = bytes(img[:len(data)]) + (b"" if common.has_eof(model, mt) else rng.randbytes(rng.choice([0, 3, 40])))
    base = None
    for kind in KINDS[:1] + KINDS[:0:-1]:
        for form in FORMS:
            arg = {"sim": lambda: simio.SimFile(img, 0), "bytesio": lambda: io.BytesIO(img), "bytes": lambda: img,
                   "buffered": lambda: io.BufferedReader(simio.SimRaw(img, [3, 1, 8]), 8), "bytearray": lambda: bytearray(img),
                   "memoryview": lambda: memoryview(img)}[kind]()
            if (form == "reads" and kind not in ("bytes", "bytearray", "memoryview")) or (form == "csread" and t[0] != "n"):
                continue
            try:
                r = invoke(cs, T, t, form, arg)
            except Exception:  # noqa: BLE001
                got = ("raised",)
            else:
                got = (real.plain(r, T), tuple(targets(r, T)))
            if base is None:
                base = got
                if base[0] != "raised":
                    # the stream is the one that was parsed, not a part of it
                    direct = tuple(targets(r, T, at=img))
                    if any(a != b for a, b in zip(got[1], direct) if b[1] is not None):
                        ctx.fail("targets", f"compiled={mode} {t} from {img.hex()}: pointers refer to {got[1]!r}, parsing there gives {direct!r}\n"
                                 f"{gen.text(prog)}")
            elif got != base:
                ctx.fail("targets", f"compiled={mode} {t} from {img.hex()} as {kind} through {form}: {got!r}, as sim through call: {base!r}\n"
                         f"{gen.text(prog)}")
    ctx.stat("probe:pointer_targets", base[0] != "raised")


def needs_fields(t):
    """An array whose length is an expression over the fields next to the pointer."""
    from dissect.cstruct import types as ty

    while issubclass(t, ty.BaseArray):
        if t.num_entries is not None and not isinstance(t.num_entries, int) and str(t.num_entries) != "EOF":
            return True
        t = t.type
    return False


def targets(v, t, name="", at=None):
    """(path, what the pointer refers to) of every pointer in the value (at: by parsing these bytes at its address instead)."""
    from dissect.cstruct import types as ty

    if issubclass(t, ty.Structure):
        for f in t.__fields__:
            if not f.bits:
                yield from targets(getattr(v, f._name), f.type, f"{name}.{f._name}", at)
    elif issubclass(t, ty.Array):
        for i, x in enumerate(v):
            yield from targets(x, t.type, f"{name}[{i}]", at)
    elif issubclass(t, ty.Pointer):
        try:
            if at is None or int(v) == 0:
                d = v.dereference()
            elif needs_fields(t.type) or issubclass(t.type, ty.Void):
                yield name, None
                return
            else:
                f = simio.SimFile(at, int(v))
                d = t.type[None].read(f) if issubclass(t.type, ty.Char) else t.type.read(f)
            d = (None if issubclass(t.type, ty.Void) else
                 bytes(d) if issubclass(t.type, ty.Char) else real.plain(d, t.type))
        except Exception:  # noqa: BLE001
            d = ("raised",)  # kinds of file objects refuse large reads in different ways
        yield name, d


def invoke(cs, T, t, form, arg):
    if form == "call":
        return T(arg)
    if form == "read":
        return T.read(arg)
    if form == "reads":
        return T.reads(arg)
    return cs.read(t[1], arg)
