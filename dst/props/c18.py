"""C18: incrementally built or self-referential structures equal the one-shot definition.

One run = one random structure or union whose fields are split into an initial definition and a history of add_field calls, batches
(start_update, also nested), parser-style extend+commit steps; between the steps intermediate states are used (parsed, constructed,
hashed, wrapped into arrays), fields are rejected, batches are broken off by exceptions, the source generator fails, and exceptions
hit arbitrary lines of the commit.  After every commit the class is compared with the definition of the same fields in one piece.
"""

from __future__ import annotations

import copy
import inspect
import random
import sys

from .. import core, gen, real, simio
from .. import model as M
from . import common
from .c03 import GEXC, GenFault

RUNS = {"quick": 20000, "thorough": 400000}
RULE = ("one run = one random structure split into a random history of commits with rejected fields, exceptions in batches, generator "
        "failures and exceptions at arbitrary lines of a commit; after every commit layout, reader kind, parse results, dumps, defaults, "
        "equality, hash and construction are compared with the one-shot definition; non-trivial = at least 2 commits after the first state "
        "and at least 2 inputs parsed by both; distinct = event log digest")
STATE_MEASURE = "distinct (kinds of the fields before / after the last commit, step kind, reader mode, alignment mode, dynamic before/after)"
REAL = ["all of dissect.cstruct including the compiler"]
STUB = ["file object (simio.SimFile)"]
ASSUMPTIONS = ["the one-shot definition is loaded into a cstruct object of its own with the same options",
               "after an exception at an arbitrary line of a commit, the structure is compared only once a later commit has succeeded",
               "fields added in a batch that was broken off may be kept or dropped, but never partially applied"]
PROBES = ["single_adds", "batch", "nested_batch", "extend_commit", "from_empty", "becomes_dynamic", "gains_bits", "alignment_grows",
          "bit_unit_split", "anonymous_added", "self_reference", "compiled_reader", "union_extended", "explicit_offset", "used_between",
          "retried_after_failure"]
FAULTS = ["rejected_duplicate", "rejected_straddle", "rejected_type", "batch_exception", "rejected_in_batch", "generator_exception", "commit_interrupted"]
LISTS = ("steps",)


def generate(rng, tier):
    for _ in range(6):
        g, prog, m = common.program(rng, maxstruct=3, topunion=0.12, density=0.45, nocompile=0.1, charbits=True,
                                    need=rng.choice([("bits",), ("bits", "exprarr"), ("anon",), ("leb", "bits"), ("ptr", "selfref"), ()]))
        if prog is None:
            continue
        d = next(x for x in prog["decls"] if x.get("name") == prog["top"])
        if len(d["fields"]) >= 2:
            break
    else:
        return None
    d.pop("style", None)
    d.pop("aliases", None)
    if len(d["fields"]) > (80 if g.big else 12):
        return None
    n = len(d["fields"])
    explicit = False
    if d["k"] == "struct" and rng.random() < 0.2 and not d.get("selfref"):
        # explicit offsets, built through Field objects
        explicit = True
        try:
            lay = m.types[prog["top"]]
        except KeyError:
            return None
        gap = 0
        for f, mf in zip(d["fields"], lay.fields):
            if mf.offset is None:
                break
            if f.get("b") and not mf.first:
                if rng.random() < 0.2:
                    gap += M.storage(mf.type).size + rng.choice([1, 2, 7]) + (16 if prog["align"] else 0)
                    f["off"] = mf.offset + gap
                continue
            if rng.random() < 0.4:
                gap += rng.choice([0, 1, 2, 4, 7, 16])
                f["off"] = mf.offset + gap + (16 if prog["align"] else 0) * (gap > 0)
                gap = f["off"] - mf.offset
                # following fields move too
        try:
            M.Model(prog)
        except (M.Invalid, KeyError):
            return None
    k0 = rng.choice([0, 0, 1, 1, rng.randrange(0, n)] + [rng.randrange(0, n)] * 3 * (n > 12))
    steps = []
    left = n - k0
    while left > 0 or (steps == [] and rng.random() < 0.5):
        c = min(left, rng.choice([1, 1, 1, 2, 3, left] if n <= 12 else [1, 2, 7, 16, 30, left]))
        st = {"n": max(c, 0), "mode": rng.choice(["add", "add", "batch", "batch", "nested", "extend"])}
        left -= c
        if rng.random() < 0.45:
            st["act"] = [rng.choice(["parse", "default", "array", "hash", "cut", "dump"]) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.25:
            st["bad"] = rng.choice(["dup", "straddle", "type"])
            st["at"] = rng.randrange(0, c + 1)
        elif rng.random() < 0.12 and st["mode"] in ("batch", "nested"):
            st["exc"] = rng.randrange(0, c + 1)
        elif rng.random() < 0.15:
            st["line"] = [rng.randrange(0, 150), rng.choice(["MemoryError", "KeyboardInterrupt", "RecursionError", "OSError"])]
        elif rng.random() < 0.12:
            st["gen"] = [rng.randrange(0, 120), rng.choice(sorted(GEXC))]
        steps.append(st)
        if left <= 0:
            break
    return {"prog": prog, "compiled": rng.random() < 0.65, "k0": k0, "steps": steps, "explicit": explicit, "seed": rng.getrandbits(32)}


class LineFault:
    """Raises at the n-th line event inside structure.py below add_field / commit."""

    def __init__(self, n, exc):
        self.left = n
        self.exc = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RecursionError": RecursionError,
                    "OSError": OSError}[exc]
        self.fired = False
        self.file = core.LIBDIR + "types" + "/structure.py"

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename == self.file else None

    def local(self, frame, event, arg):
        if event == "line" and not self.fired:
            if self.left == 0:
                self.fired = True
                raise self.exc("injected during a commit")
            self.left -= 1
        return self.local


def mk_text(prog, k, upto):
    """Definition text with only the first upto fields of the top structure."""
    p = copy.deepcopy(prog)
    d = next(x for x in p["decls"] if x.get("name") == p["top"])
    d["fields"] = d["fields"][:upto]
    return gen.text(p)


class Sys:
    """One cstruct object with everything but the top structure loaded, and the types of all its fields."""

    def __init__(self, plan, upto):
        from dissect.cstruct import compiler, cstruct
        from dissect.cstruct.types.structure import Field

        prog = plan["prog"]
        d = next((x for x in prog["decls"] if x.get("name") == prog["top"]), None)
        if d is None or d["k"] not in ("struct", "union"):
            raise core.Skip("top")
        self.d = d
        self.cs = cstruct(endian=prog["endian"], pointer=prog["pointer"])
        al = bool(prog["align"])
        for x in prog["decls"]:
            if x is d:
                break
            self.cs.load(gen.join(gen.decl_tokens(x)), compiled=plan["compiled"], align=al)
        if plan["explicit"]:
            self.types()
            make = self.cs._make_union if d["k"] == "union" else self.cs._make_struct
            self.T = make(d["name"], [Field(f["n"], self.type(i), f.get("b"), f.get("off")) for i, f in enumerate(d["fields"][:upto])], align=al)
            if plan["compiled"] and not d.get("nocompile"):
                self.T = compiler.compile(self.T)
            self.cs.add_type(d["name"], self.T)
        else:
            self.cs.load(gen.join(gen.decl_tokens({**d, "fields": d["fields"][:upto]})), compiled=plan["compiled"], align=al)
            self.T = self.cs.resolve(d["name"])

    def types(self):
        pass

    def type(self, i):
        """Library type of field i, made by the library's own parser in an auxiliary definition."""
        f = self.d["fields"][i]
        t = f["t"]
        if t[0] != "inl" and not (t[0] == "arr" and inl_inside(t)):
            return real.typ(self.cs, t)
        aux = {"k": "struct", "name": f"aux_{i}", "fields": [{**f, "n": f["n"]}]}
        prog = self.plan["prog"]
        self.cs.load(gen.join(gen.decl_tokens(aux)), compiled=self.plan["compiled"], align=bool(prog["align"]))
        return self.cs.resolve(f"aux_{i}").__fields__[0].type


def inl_inside(t):
    while t[0] in ("arr", "ptr"):
        t = t[1]
    return t[0] == "inl"


def generated(T):
    """Does the class read through generated code?"""
    c = getattr(getattr(T._read, "__func__", T._read), "__code__", None)
    return c is not None and not c.co_filename.startswith(core.LIBDIR)


def attempt(fn):
    try:
        return ("ok", fn())
    except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
        return ("raised", "EOFError" if isinstance(e, EOFError) else type(e).__name__)


def anon_free(x, names=("__anonymous",)):
    """repr() text without the numbers of anonymous types."""
    import re

    return re.sub(r"__anonymous_\d+__", "__anonymous__", x)


def signature(T):
    try:
        a = inspect.getfullargspec(T.__init__)
    except TypeError:
        return None
    return [anon_free(x) for x in a.args[1:]], a.defaults


def lay(T):
    """Layout without the names of anonymous types."""
    return real.layout(T)


def observe(T, datas, endless, full):
    """Everything observable of a class, as comparable data."""
    out = [("layout", lay(T)), ("len", attempt(lambda: len(T))), ("fields", [anon_free(k) for k in T.fields]),
           ("lookup", [anon_free(k) for k in T.lookup]), ("init", signature(T)), ("generated", generated(T)), ("dynamic", bool(T.dynamic)),
           ("compiled", bool(T.__compiled__))]

    def dflt():
        o = T()
        return real.plain(o, T), bool(o), o == T(), anon_free(repr(o))

    out.append(("default", attempt(dflt)))
    out.append(("default-dumps", attempt(lambda: T().dumps())))
    out.append(("default-hash", attempt(lambda: hash(T()) == hash(T()))))
    out.append(("array", attempt(lambda: (T[2].size, T[2].alignment))))
    for data in datas:
        def parse(data=data):
            s = simio.SimFile(data)
            o = T.read(s)
            return real.plain(o, T), real.sizes(o, T), s.pos

        out.append((f"parse {data.hex()}", attempt(parse)))
        if not full:
            continue

        def more(data=data):
            o, q = T.read(simio.SimFile(data)), T.read(simio.SimFile(data))
            # NaN values are unequal to themselves
            r = [o == q, bool(o), anon_free(repr(o))]
            r.append(attempt(lambda: hash(o) == hash(q)))
            r.append(attempt(lambda: o.dumps()))
            r.append(attempt(lambda: {k: repr(getattr(o, k)) for k in T.fields}))
            vals = {f._name: getattr(o, f._name) for f in T.__fields__}
            r.append(attempt(lambda: (lambda z: (real.plain(z, T), z == o))(T(*vals.values()))) if len(vals) != 1 else None)
            r.append(attempt(lambda: (lambda z: (real.plain(z, T), z == o))(T(**vals))))
            for f in T.__fields__:
                # equality is sensitive to every field
                x = T.read(simio.SimFile(data))

                def mod(x=x, f=f):
                    setattr(x, f._name, f.type.__default__())
                    return x == o, attempt(lambda: x.dumps())

                r.append(attempt(mod))
            return r

        out.append((f"instance {data.hex()}", attempt(more)))
        for i, f in enumerate(T.__fields__):
            if is_ptr(f.type) and not endless:
                def deref(data=data, f=f):
                    s = simio.SimFile(data)
                    p = getattr(T.read(s), f._name)
                    if T.__align__ and int(p) % 16:
                        return None  # structures are only aligned at aligned positions
                    s.limit = s.steps + 20000
                    try:
                        return real.plain(p.dereference(), f.type.type), s.pos
                    except simio.StepLimit:
                        return None

                out.append((f"dereference {i} {data.hex()} (cut)", attempt(deref)))
        for cut in sorted({0, len(data) // 2, max(0, len(data) - 1)}):
            def short(cut=cut, data=data):
                s = simio.SimFile(data[:cut])
                o = T.read(s)
                return real.plain(o, T)

            out.append((f"parse {data[:cut].hex()} (cut)", attempt(short)))
    return out


def is_ptr(t):
    from dissect.cstruct import types as ty

    return issubclass(t, ty.Pointer) and not issubclass(t.type, (ty.Char, ty.Void))


def execute(plan, ctx):
    prog = plan["prog"]
    model = common.make_model(prog)
    Sys.plan = plan
    try:
        sut = Sys(plan, plan["k0"])
    except core.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        raise core.Skip(f"initial definition rejected: {e!r}") from None
    d = sut.d
    n = len(d["fields"])
    T = sut.T
    rng = random.Random(plan["seed"])
    refs = {}
    text = gen.text(prog)
    parsed = commits = 0
    steps = [s["mode"] + str(s["n"]) for s in plan["steps"]]

    def fail(cls, msg, what):
        ctx.fail(cls, f"{what}: {msg}\ncompiled={plan['compiled']} endian={prog['endian']} align={prog['align']} pointer={prog['pointer']} "
                 f"explicit offsets={[f.get('off') for f in d['fields']] if plan['explicit'] else None} initial fields={plan['k0']} steps={steps}\n{text}")

    def prefix_ok(k):
        """Model type of the first k fields (None when such a definition is rejected)."""
        p = copy.deepcopy(prog)
        x = next(y for y in p["decls"] if y.get("name") == p["top"])
        x["fields"] = x["fields"][:k]
        try:
            m = M.Model(p)
            return m, m.types[p["top"]]
        except (M.Invalid, KeyError):
            return None, None

    def reference(k):
        if k not in refs:
            try:
                r = Sys(plan, k)
            except core.Skip:
                raise
            except Exception as e:  # noqa: BLE001
                raise core.Skip(f"one-shot definition rejected: {e!r}") from None
            m, mt = prefix_ok(k)
            datas = []
            if mt is not None:
                for _ in range(3):
                    x = gen.gen_data(m, mt, rng, 0, tries=4, limit=400)
                    if x is not None and "'nan'" not in repr(x[1]):
                        datas.append(x[0] + (b"" if common.has_eof(m, mt) else rng.randbytes(rng.choice([0, 0, 5]))))
            refs[k] = (r, datas, {})
        return refs[k]

    endless = any(common.endless(t) for t in model.types.values())

    def compare(k, what, full, kinds=True):
        nonlocal parsed
        r, datas, cache = reference(k)
        if full not in cache:
            cache[full] = observe(r.T, datas, endless, full)
        want = cache[full]
        got = observe(T, datas, endless, full)
        parsed += len(datas)
        for (key, a), (_, b) in zip(got, want):
            if key in ("generated", "compiled") and not kinds:
                continue
            if key.endswith("(cut)") and not kinds and a[0] != b[0]:
                continue  # the readers may treat missing padding differently
            if a != b:
                fail("differs:" + key.split(" ")[0], f"{key}\nincremental {a!r}\none-shot    {b!r}", what)

    def count():
        """Number of target fields the structure claims to have; anything else is a violation."""
        have = [f.name for f in T.__fields__]
        want = [f["n"] for f in d["fields"]]
        if have != want[:len(have)]:
            fail("fields", f"fields are {have}, wanted a prefix of {want}", what)
        return len(have)

    types = {}

    def ftype(i):
        if i not in types:
            try:
                types[i] = sut.type(i)
            except Exception as e:  # noqa: BLE001
                raise core.Skip(repr(e)) from None
        return types[i]

    def add(i):
        f = d["fields"][i]
        if f.get("off") is not None and plan["explicit"]:
            T.add_field(f["n"], ftype(i), f.get("b"), f.get("off"))
        elif f.get("b"):
            T.add_field(f["n"], ftype(i), f["b"])
        else:
            T.add_field(f["n"], ftype(i))

    def bad(kind, k):
        u8 = sut.cs.resolve("uint8")
        if kind == "dup":
            nm = next((f["n"] for f in d["fields"][:k] if f["n"]), None)
            if nm is None or nm == "_":
                return False
            T.add_field(nm, u8)
        elif kind == "straddle":
            if d["k"] == "union":
                return False  # bit fields directly in unions are outside the domain
            T.add_field("bad_straddle", sut.cs.resolve("uint16"), 17)
        else:
            T.add_field("bad_type", 5)
        return True

    kinds = True  # reader kinds comparable (no generator failure was injected)
    what = "initial state"
    if plan["k0"]:
        compare(plan["k0"], what, False)
    else:
        ctx.stat("probe:from_empty")
    if d.get("selfref"):
        ctx.stat("probe:self_reference")
    ctx.stat("probe:explicit_offset", plan["explicit"])
    queue = list(plan["steps"])
    guard = 0
    while True:
        k = count()
        if k >= n and not queue:
            break
        st = queue.pop(0) if queue else {"n": 1, "mode": "add", "retry": True}
        guard += 1
        if guard > 60 + 2 * n + len(plan["steps"]):
            fail("stuck", "fields cannot be added", what)
        c = min(st["n"], n - k)
        what = f"step {guard} {st} at {k} fields"
        for a in st.get("act", ()):
            r, datas, _ = reference(k)
            data = rng.choice(datas) if datas else b""

            def act(a=a, data=data):
                if a == "parse":
                    T.read(data)
                elif a == "default":
                    T()
                elif a == "array":
                    T[2].read(data + data)
                elif a == "hash":
                    hash(T())
                elif a == "dump":
                    T().dumps()
                else:
                    T.read(data[:len(data) // 2])

            attempt(act)
            ctx.stat("probe:used_between")
        before_dyn, before = bool(T.dynamic), features(d["fields"][:k])
        ba = T.alignment
        mode = st["mode"]
        lf = LineFault(*st["line"]) if "line" in st else None
        gf = GenFault([(st["gen"][0], st["gen"][1])]) if "gen" in st else None
        inj = lf or gf
        for i in range(k, k + c):
            ftype(i)
        at = min(st.get("at", -1), c)

        class Broken(Exception):
            pass

        err = None
        rejected = False
        try:
            if inj:
                inj.__enter__()
            try:
                if mode == "add":
                    for q, i in enumerate(range(k, k + c)):
                        if q == at and "bad" in st:
                            try:
                                r = bad(st["bad"], k + q)
                            except Exception:  # noqa: BLE001
                                ctx.stat("fault:rejected_" + {"dup": "duplicate"}.get(st["bad"], st["bad"]))
                            else:
                                if r:
                                    fail("accepted", f"a rejectable field ({st['bad']}) was accepted", what)
                            if count() != k + q:
                                fail("fields", f"after a rejected field there are {count()} fields", what)
                            compare(k + q, what + " (after rejection)", False, kinds)
                        add(i)
                elif mode in ("batch", "nested"):
                    with T.start_update():
                        for q, i in enumerate(range(k, k + c)):
                            if q == at and "bad" in st and st["bad"] != "type":
                                rejected = True
                                rejected = bad(st["bad"], k + q)
                            if st.get("exc") == q:
                                raise Broken
                            if mode == "nested" and q == c // 2:
                                with T.start_update():
                                    add(i)
                            else:
                                add(i)
                        if at == c and "bad" in st and st["bad"] != "type":
                            rejected = True
                            rejected = bad(st["bad"], k + c)
                        if st.get("exc") == c:
                            raise Broken
                else:
                    from dissect.cstruct.types.structure import Field

                    T.__fields__.extend([Field(f["n"], ftype(i), f.get("b"), f.get("off") if plan["explicit"] else None)
                                         for i, f in list(enumerate(d["fields"]))[k:k + c]])
                    T.commit()
            finally:
                if inj:
                    inj.__exit__()
        except core.Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            err = e
        if isinstance(err, core.Skip):
            raise err
        if gf and gf.fired:
            ctx.stat("fault:generator_exception")
            kinds = False
        if lf and lf.fired:
            # whatever the interruption left behind, the next successful commit must repair
            ctx.stat("fault:commit_interrupted")
            kinds = False
            have = [f.name for f in T.__fields__]
            want = [f["n"] for f in d["fields"]]
            if have != want[:len(have)]:
                raise core.Skip("interrupted between the field list updates")
            try:
                with T.start_update():
                    pass
            except Exception as e:  # noqa: BLE001
                fail("commit", f"after an interrupted commit, committing again raised {e!r}", what)
            kk = count()
            if kk or plan["k0"]:
                compare(kk, what + f" (interrupted at line {st['line'][0]}, then committed)", True, kinds)
            ctx.stat("probe:retried_after_failure")
            ctx.log(guard, "interrupted", kk)
            continue
        if err is not None:
            if isinstance(err, Broken):
                ctx.stat("fault:batch_exception")
            elif rejected:
                ctx.stat("fault:rejected_in_batch")
            else:
                fail("rejected", f"adding {[f['n'] for f in d['fields'][k:k + c]]} raised {err!r}, the one-shot definition is accepted "
                     f"{attempt(lambda: lay(reference(k + c)[0].T))!r}", what)
        elif rejected:
            fail("accepted", f"a batch with a rejectable field ({st['bad']}) was accepted", what)
        elif count() != k + c:
            fail("fields", f"{count()} fields after adding {c} to {k}", what)
        kk = count()
        if err is not None and kk not in range(k, k + c + 1):
            fail("fields", f"{kk} fields after a broken batch of {c} on {k}", what)
        if kk:
            compare(kk, what, kk == n or rng.random() < 0.3, kinds)
        commits += 1
        if err is not None:
            ctx.stat("probe:retried_after_failure")
        ctx.stat("probe:single_adds", mode == "add")
        ctx.stat("probe:batch", mode == "batch")
        ctx.stat("probe:nested_batch", mode == "nested")
        ctx.stat("probe:extend_commit", mode == "extend")
        ctx.stat("probe:becomes_dynamic", bool(T.dynamic) and not before_dyn)
        ctx.stat("probe:alignment_grows", T.alignment > ba)
        ctx.stat("probe:union_extended", d["k"] == "union" and c > 0)
        fs = d["fields"]
        ctx.stat("probe:gains_bits", any(f.get("b") for f in fs[k:kk]) and not any(f.get("b") for f in fs[:k]))
        ctx.stat("probe:bit_unit_split", bool(0 < k < kk and fs[k - 1].get("b") and fs[k].get("b") and fs[k - 1]["t"] == fs[k]["t"]))
        ctx.stat("probe:anonymous_added", any(f["n"] is None for f in fs[k:kk]))
        ctx.stat("probe:compiled_reader", generated(T))
        ctx.state(before, features(fs[k:kk]), mode, plan["compiled"], prog["align"], before_dyn, bool(T.dynamic), d["k"])
        ctx.log(guard, mode, k, kk, repr(lay(T)))
    what = "final state"
    compare(n, what, True, kinds)
    # the finished structure as a part of others
    r = refs[n][0]
    outer = f"struct outer_ {{ uint8 first; {d['name']} inner; {d['name']} *ptr; uint16 last; }};"
    if not common.has_eof(model, model.types[prog["top"]]):
        lays = []
        for s in (sut, r):
            try:
                s.cs.load(outer, compiled=plan["compiled"], align=bool(prog["align"]))
                O = s.cs.resolve("outer_")
                b = random.Random(plan["seed"]).randbytes(200) if O.size is not None else bytes(200)
                lays.append((lay(O), attempt(lambda O=O, b=b: real.plain(O.read(simio.SimFile(b)), O))))
            except Exception as e:  # noqa: BLE001
                lays.append(type(e).__name__)
        if lays[0] != lays[1]:
            fail("differs:outer", f"embedded: incremental {lays[0]!r}\none-shot    {lays[1]!r}", what)
    ctx.nontrivial = commits >= 2 and parsed >= 2


def features(fields):
    return common.features({"decls": [{"k": "struct", "fields": fields}]})


def shrink(plan):
    for i, s in enumerate(plan["steps"]):
        for key in ("act", "bad", "exc", "line", "gen"):
            if key in s:
                p = copy.deepcopy(plan)
                del p["steps"][i][key]
                yield p
        if s["mode"] != "add":
            p = copy.deepcopy(plan)
            p["steps"][i]["mode"] = "add"
            yield p
        if s["n"] > 1:
            p = copy.deepcopy(plan)
            p["steps"][i]["n"] -= 1
            yield p
        if "line" in s and s["line"][0]:
            p = copy.deepcopy(plan)
            p["steps"][i]["line"][0] //= 2
            yield p
    if plan["k0"]:
        yield {**copy.deepcopy(plan), "k0": plan["k0"] - 1}
    if plan["compiled"]:
        yield {**copy.deepcopy(plan), "compiled": False}
    if plan["explicit"]:
        p = copy.deepcopy(plan)
        p["explicit"] = False
        for d in p["prog"]["decls"]:
            for f in d.get("fields", ()):
                f.pop("off", None)
        yield p
