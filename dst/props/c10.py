"""C10: integer expressions follow C precedence and evaluate repeatably.

One run = a set of random expressions as long-lived Expression objects (also inside array types of a compiled and an
interpreted structure, in #define, enum and array-length position) and a history of evaluations with different field contexts and
changing constants, in which evaluations are broken off (failing context look-up, unknown name, division by zero, asynchronous
interruption at a random line) or re-entered from inside a context look-up.
"""

from __future__ import annotations

import sys

from .. import core, refexpr
from . import common  # noqa: F401

RUNS = {"quick": 18000, "thorough": 500000}
RULE = ("one run = 3-9 random expressions and a history of 10-50 evaluations on the same objects (plain, failing or re-entrant "
        "context, asynchronous interruption, changed constants, via array lengths in both readers, #define/enum/array bound); "
        "each completed evaluation is compared with an independent evaluator; non-trivial = at least 8 comparisons, at least one on "
        "an object that had been evaluated before; distinct = event log digest")
STATE_MEASURE = "distinct (neighbouring operator pair with nesting relation, operand kinds, history kind before the evaluation)"
REAL = ["dissect.cstruct.expression", "parser, array types and both readers for expressions in definitions"]
STUB = ["context mapping with failing / re-entrant look-ups", "asynchronous interruption delivered by sys.settrace"]
ASSUMPTIONS = ["expressions whose value needs division or remainder with a negative operand, division by zero, or a negative shift are "
               "outside the property; they are only used to break evaluations off"]
PROBES = ["typed_context", "constant_from_enum", "evaluated_again", "after_interruption", "reentrant_evaluation", "context_shadows_constant", "const_changed",
          "two_operator_levels", "in_array_length", "in_define", "in_enum", "in_array_bound", "sizeof", "type_changed", "octal", "unary_chain"]
FAULTS = ["context_raises", "unknown_identifier", "division_by_zero", "async_interrupt", "truncated_stream"]
LISTS = ("ops",)

IDS = ["a", "b", "x", "u", "l", "e", "f", "len", "_c", "A1", "sizeof_", "ul", "U", "xb", "x1", "LL", "n", "o", "b1", "count", "size"]
BIN = ["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"]
BIG = object()
SIZES = {"uint8": 1, "int16": 2, "uint32": 4, "unsigned int": 4, "unsigned long long": 8, "S0": 6, "wchar": 2, "int128": 16, "u1": 1,
         "long": 4, "WORD": 2, "U0": 8, "R0": 3, "E0": 5}
TYPES = "struct S0 { uint16 p; uint32 q; };\nunion U0 { uint64 p; uint8 q; };\n"


def types(sizes):
    """Definitions of all types named in sizeof: R0 (later replaced) and E0 (later extended)."""
    return TYPES + f"struct R0 {{ uint8 d[{sizes['R0']}]; }};\nstruct E0 {{ uint8 d[{sizes['E0']}]; }};\n"


def literal(rng):
    v = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 100, 255, 256, 0xABC, 0xFFFFFFFF, rng.getrandbits(rng.randrange(1, 70))])
    s = rng.choice([str(v)] * 4 + [hex(v), "0X" + f"{v:x}", f"0x{v:X}", f"0b{v:b}", f"0B{v:b}", f"0{v:o}"])
    return s + (rng.choice(["u", "U", "l", "L", "ul", "UL", "ull", "ULL", "LL", "ll", "lu", "llu", "LLU", "uL"]) if rng.random() < 0.2 else "")


def expr(rng, depth, ids):
    """Token list of a random well-formed expression."""
    x = rng.random()
    if depth <= 0 or x < 0.18:
        y = rng.random()
        if y < 0.45 and ids:
            return [rng.choice(ids)]
        if y < 0.53:
            return ["sizeof", "(", *rng.choice(sorted(SIZES)).split(" "), ")"]
        return [literal(rng)]
    if x < 0.3:
        return [rng.choice("-~"), *unary_operand(rng, depth - 1, ids)]
    if x < 0.42:
        return ["(", *expr(rng, depth - 1, ids), ")"]
    # operators side by side without parentheses: precedence and associativity decide
    out = expr(rng, depth - 1, ids) if rng.random() < 0.4 else unary_operand(rng, depth - 1, ids)
    for _ in range(rng.choice([1, 1, 2, 3])):
        out += [rng.choice(BIN), *(unary_operand(rng, depth - 1, ids) if rng.random() < 0.6 else expr(rng, depth - 2, ids))]
    return out


def longexpr(rng, ids):
    """Unusually long, or deeply nested, expression."""
    paren = rng.random() < 0.4

    def operand():
        if paren:
            return unary_operand(rng, 1, ids)
        return [*rng.choice([[], [], [], ["-"], ["~"], ["-", "-"]]), rng.choice(ids) if ids and rng.random() < 0.5 else literal(rng)]

    x = rng.random()
    if x < 0.5:
        out = operand()
        n = rng.choice([13, 20, 26, 33, 60, 70, 130, 140])
        ops = rng.choice([["+", "-"], ["+", "-", "&", "|", "^"], ["+"], ["-", "%", "|", "/", "*"], ["-", ">>"]])
        for _ in range(n):
            op = rng.choice(ops)
            out += [op, *(operand() if op not in ("*", ">>") else [str(rng.randrange(1, 3))])]
        return out
    inner = expr(rng, 2, ids)
    for _ in range(rng.choice([5, 9, 17, 33, 40])):
        y = rng.random()
        if y < 0.4:
            inner = ["(", *inner, ")"]
        elif y < 0.6:
            inner = [rng.choice("-~"), *inner]
        elif y < 0.8:
            inner = ["(", *operand(), rng.choice(["+", "-", "|"]), *inner, ")"]
        else:
            inner = ["(", "(", *inner, ")", rng.choice(["+", "-", "^"]), *operand(), ")"]
    return inner


def unary_operand(rng, depth, ids):
    x = rng.random()
    if x < 0.25:
        return [rng.choice("-~"), *unary_operand(rng, depth - 1, ids)]
    if x < 0.45 and depth > 0:
        return ["(", *expr(rng, depth - 1, ids), ")"]
    return expr(rng, 0, ids)


def spaced(rng, toks):
    out = ""
    style = rng.random()
    for i, t in enumerate(toks):
        if i:
            need = (out[-1].isalnum() or out[-1] == "_") and (t[0].isalnum() or t[0] == "_")
            if need or style > 0.7 or (style > 0.3 and rng.random() < 0.4):
                out += rng.choice([" ", " ", "  ", "\t"])
        out += t
    return out


def sizeof(name, sizes=SIZES):
    if name not in sizes:
        raise refexpr.ExprError("sizeof")
    return sizes[name]


def generate(rng, tier):
    ids = rng.sample(IDS, rng.randrange(2, 6))
    consts = {n: rng.choice([0, 1, 2, 5, 16, -3, 255]) for n in rng.sample(IDS, rng.randrange(1, 4))}
    names = sorted(set(ids) | set(consts))
    exprs = []
    depth = rng.choice([1, 2, 2, 3, 3, 4])
    for _ in range(rng.randrange(3, 10)):
        toks = expr(rng, depth, names)
        if len(toks) > 40:
            continue
        if rng.random() < 0.015:
            toks = longexpr(rng, names)
        exprs.append(spaced(rng, toks))
    if not exprs:
        return None

    def context(full=True):
        c = {}
        for n in names:
            if n in ids or rng.random() < 0.3:
                c[n] = rng.choice([0, 1, 2, 3, 4, 7, 9, 200, 65535, rng.getrandbits(40), -1, -5])
        return c

    ops = []
    for _ in range(rng.randrange(10, 51)):
        i = rng.randrange(len(exprs))
        x = rng.random()
        if x < 0.5:
            c = context()
            ops.append({"op": "eval", "i": i, "ctx": c, "kinds": {n: rng.choice(KINDS) for n in sorted(c)} if rng.random() < 0.35 else {}})
        elif x < 0.58:
            ops.append({"op": "ctxfail", "i": i, "ctx": context(), "at": rng.randrange(0, 4), "exc": rng.choice(["KeyError", "Abort", "OSError"])})
        elif x < 0.64:
            ops.append({"op": "missing", "i": i})
        elif x < 0.72:
            ops.append({"op": "interrupt", "i": i, "ctx": context(), "at": rng.randrange(0, 120)})
        elif x < 0.8:
            ops.append({"op": "reenter", "i": i, "ctx": context(), "j": rng.choice([i, rng.randrange(len(exprs))]), "ctx2": context(),
                        "at": rng.randrange(0, 4)})
        elif x < 0.82:
            ops.append({"op": "type", "n": rng.choice(["R0", "E0"]), "v": rng.randrange(0, 9), "how": rng.choice(["name", "type", "struct"])})
            if any(n in e for e in exprs for n in ("R0", "E0")):
                j = rng.choice([j for j, e in enumerate(exprs) if "R0" in e or "E0" in e])
                ops.append({"op": "eval", "i": j, "ctx": context(), "kinds": {}})
        elif x < 0.86:
            ops.append({"op": "const", "n": rng.choice(sorted(consts)), "v": rng.choice([0, 1, 3, 8, 1000, -7])})
        elif x < 0.93:
            fields = {n: rng.choice([0, 1, 2, 3, 5, 60]) for n in ids}
            ops.append({"op": "array", "i": i, "fields": fields, "compiled": rng.random() < 0.5, "cut": rng.random() < 0.25,
                        "types": {n: rng.choice(FTYPES) for n in ids} if rng.random() < 0.5 else {}})
        else:
            ops.append({"op": "text", "i": i, "where": rng.choice(["define", "enum", "bound"])})
    ckinds = {n: rng.choice(["define", "enum", "flag"]) for n in sorted(consts)} if rng.random() < 0.3 else {}
    return {"ids": ids, "consts": consts, "exprs": exprs, "ops": ops, "ckinds": ckinds}


# Values of fields are rarely plain integers
KINDS = ["int", "int64", "enum", "flag", "ptr", "bool"]
FTYPES = ["uint8 {};", "uint8 {};", "Enum8_ {};", "Flag8_ {};", "uint8 {}:8;", "Flag8_ {}:8;", "u1 {};"]
VALUETYPES = "enum Enum64_ : int64 { EA_ = 1, EB_ = 2 };\nflag Flag64_ : uint64 { FA_ = 1, FB_ = 2 };\n" \
    "enum Enum8_ : uint8 { EC_ = 1, ED_ = 2 };\nflag Flag8_ : uint8 { FC_ = 1, FD_ = 2 };\n"


def wrap(cs, v, kind):
    """The value as the instance of a library type a field of that type has."""
    if kind == "int64":
        return cs.int64(v)
    if kind == "enum":
        return cs.Enum64_(v)
    if kind == "flag" and v >= 0:
        return cs.Flag64_(v)
    if kind == "ptr" and v >= 0:
        return cs._make_pointer(cs.uint8)(v, None)
    return bool(v) if kind == "bool" and v in (0, 1) else v


def constant(n, v, kind):
    if n == "size":
        kind = "define"  # enum members cannot be named like class attributes
    if kind == "enum":
        return f"enum : int64 {{ {n} = {v} }};\n"
    if kind == "flag" and v > 0:
        return f"flag : uint64 {{ {n} = {v} }};\n"
    return f"#define {n} {v}\n"


class Context(dict):
    """Context whose n-th access to a value runs a hook."""

    def __init__(self, d, at, hook):
        super().__init__(d)
        self.n = 0
        self.at = at
        self.hook = hook

    def __getitem__(self, k):
        n = self.n
        self.n += 1
        if n == self.at:
            self.hook()
        return super().__getitem__(k)


class Interrupt:
    """Asynchronous interruption at the n-th line event inside the expression module."""

    def __init__(self, at):
        self.left = at
        self.fired = False
        self.file = core.LIBDIR + "expression.py"

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)

    def __exit__(self, *a):
        sys.settrace(self.old)

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename == self.file else None

    def local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.left -= 1
            if self.left < 0:
                self.fired = True
                raise KeyboardInterrupt("injected interruption")
        return self.local


def pairs(text):
    toks = refexpr.tokenize(text)
    ops = [(v if k == "op" else k) for k, v in toks]
    sig = set()
    for a, b in zip(ops, ops[1:]):
        sig.add((a, b))
    flat = [o for o in ops if o in BIN or o in "~()"]
    for a, b in zip(flat, flat[1:]):
        sig.add(("ops", a, b))
    return sig


def execute(plan, ctx):
    from dissect.cstruct import cstruct
    from dissect.cstruct.expression import Expression

    exprs = plan["exprs"]
    cs = cstruct()
    consts = dict(plan["consts"])
    sizes = dict(SIZES)
    cs.load(types(sizes) + VALUETYPES)
    ckinds = plan["ckinds"]
    for n, v in consts.items():
        cs.load(constant(n, v, ckinds.get(n)))
        ctx.stat("probe:constant_from_enum", ckinds.get(n) in ("enum", "flag"))
    try:
        for e in exprs:
            refexpr.tokenize(e)
    except refexpr.ExprError as e:
        raise core.Skip(repr(e)) from None
    objs = []
    for e in exprs:
        try:
            objs.append(Expression(cs, e))
        except Exception as exc:  # noqa: BLE001
            ctx.fail("rejected", f"well-formed expression {e!r} rejected: {exc!r}")
    history = [[] for _ in exprs]
    arrays = {}
    compared = again = 0

    def want(i, c, over=None):
        try:
            return refexpr.evaluate(exprs[i], c, consts if over is None else over, lambda n: sizeof(n, sizes))
        except refexpr.BigShift:
            return BIG
        except refexpr.ExprError:
            return None

    def judge(i, c, got, w, how):
        nonlocal compared, again
        if isinstance(got, BaseException) or got != w or isinstance(got, bool):
            ctx.fail("value", f"{exprs[i]!r} with context {c} and constants {consts} ({how}; earlier on this object: "
                     f"{history[i]}) gave {got!r}, expected {w}")
        compared += 1
        if history[i]:
            again += 1
            ctx.stat("probe:evaluated_again")
            if "interrupt" in history[i]:
                ctx.stat("probe:after_interruption")
        for s in pairs(exprs[i]):
            ctx.state(s, how, history[i][-1] if history[i] else None)

    def evaluate(i, c):
        try:
            return objs[i].evaluate(c)
        except Exception as e:  # noqa: BLE001
            return e

    for k, op in enumerate(plan["ops"]):
        i = op.get("i", 0) % len(exprs)
        kind = op["op"]
        if kind == "type":
            n = op["n"]
            if n == "E0":
                # a structure grows
                cs.E0.add_field(f"x{k}", cs.uint8[op["v"]])
                sizes[n] += op["v"]
            else:
                if op["how"] == "name":
                    sizes[n] = SIZES[{0: "uint8", 1: "int16", 2: "uint32"}.get(op["v"] % 4, "S0")]
                    cs.add_type(n, {0: "uint8", 1: "int16", 2: "uint32"}.get(op["v"] % 4, "S0"), replace=True)
                elif op["how"] == "type":
                    sizes[n] = op["v"]
                    cs.add_type(n, cs.uint8[op["v"]], replace=True)
                else:
                    sizes[n] = 2 * op["v"] + 2
                    cs.load(f"struct R_{k} {{ uint16 a; uint16 b[{op['v']}]; }};\n")
                    cs.add_type(n, getattr(cs, f"R_{k}"), replace=True)
            ctx.stat("probe:type_changed")
            ctx.log(k, "type", n, sizes[n])
            continue
        if kind != "const" and any(want(a, c) is BIG for a, c in
                                   ((i, op.get("ctx", {})), (op.get("j", 0) % len(exprs), op.get("ctx2", {})), (i, {}),
                                    (i, op.get("fields", {})))):
            ctx.stat("too_large")
            continue
        if kind == "const":
            consts[op["n"]] = op["v"]
            cs.load(f"#define {op['n']} {op['v']}\n")
            ctx.stat("probe:const_changed")
            ctx.log(k, "const", op["n"], op["v"])
            continue
        if kind == "eval":
            w = want(i, op["ctx"])
            got = evaluate(i, {n: wrap(cs, v, op["kinds"].get(n)) for n, v in op["ctx"].items()})
            ctx.stat("probe:typed_context", len(op["kinds"]))
            ctx.log(k, "eval", i, repr(w))
            if w is None:
                ctx.stat("fault:division_by_zero", isinstance(got, ZeroDivisionError))
                history[i].append("error")
                continue
            judge(i, op["ctx"], got, w, "eval")
            if set(op["ctx"]) & set(consts):
                ctx.stat("probe:context_shadows_constant")
            if "sizeof" in exprs[i]:
                ctx.stat("probe:sizeof")
            history[i].append("eval")
            for a, probe in ((r"\b0[0-7]+[uUlL]*\b", "octal"), (r"[-~]\s*[-~]", "unary_chain")):
                import re

                if re.search(a, exprs[i]):
                    ctx.stat("probe:" + probe)
            if len({o for kk, o in refexpr.tokenize(exprs[i]) if kk == "op"} & set(BIN)) > 1:
                ctx.stat("probe:two_operator_levels")
        elif kind == "ctxfail":
            fired = []

            def hook(fired=fired, exc=op["exc"]):
                fired.append(1)
                raise {"KeyError": KeyError, "Abort": RuntimeError, "OSError": OSError}[exc]("injected")

            w = want(i, op["ctx"])
            got = evaluate(i, Context(op["ctx"], op["at"], hook))
            if fired:
                ctx.stat("fault:context_raises")
                history[i].append("ctxfail")
            elif w is not None:
                judge(i, op["ctx"], got, w, "eval")
                history[i].append("eval")
            ctx.log(k, kind, i, bool(fired))
        elif kind == "missing":
            w = want(i, {})
            got = evaluate(i, {})
            if w is not None:
                judge(i, {}, got, w, "no context")
            elif isinstance(got, Exception):
                ctx.stat("fault:unknown_identifier")
            history[i].append("missing")
            ctx.log(k, kind, i, repr(w))
        elif kind == "interrupt":
            inj = Interrupt(op["at"])
            w = want(i, op["ctx"])
            err = None
            try:
                with inj:
                    got = objs[i].evaluate(op["ctx"])
            except KeyboardInterrupt as e:
                err = e
            except Exception as e:  # noqa: BLE001
                got = e
            if inj.fired:
                ctx.stat("fault:async_interrupt")
                history[i].append("interrupt")
            elif w is not None:
                judge(i, op["ctx"], got, w, "eval")
            ctx.log(k, kind, i, inj.fired, err is None)
            # immediately evaluate the same object again, under the same context
            if w is not None:
                judge(i, op["ctx"], evaluate(i, op["ctx"]), w, "after interruption")
        elif kind == "reenter":
            j = op["j"] % len(exprs)
            wj = want(j, op["ctx2"])
            w = want(i, op["ctx"])
            fired = []

            def hook(fired=fired, j=j, op=op):
                fired.append(evaluate(j, op["ctx2"]))

            got = evaluate(i, Context(op["ctx"], op["at"], hook))
            if fired:
                ctx.stat("probe:reentrant_evaluation")
                if wj is not None:
                    judge(j, op["ctx2"], fired[0], wj, "nested in another evaluation")
            if w is not None:
                judge(i, op["ctx"], got, w, "evaluation interleaved with a nested one")
            history[i].append("reenter")
            ctx.log(k, kind, i, j, repr(w), repr(wj))
        elif kind == "array":
            fields = {n: v & 0xFF for n, v in op["fields"].items()}
            w = want(i, fields)  # fields first, then constants
            if w is None or w > 300:
                continue
            key = (i, op["compiled"], tuple(sorted(fields)), tuple(sorted(consts.items())), sizes["R0"], sizes["E0"],
                   tuple(sorted(op["types"].items())))
            if key not in arrays:
                arrays[key] = None
                c2 = cstruct()
                text = types(sizes) + VALUETYPES + "".join(constant(n, v, ckinds.get(n)) for n, v in consts.items()) + "struct T {\n" + \
                    "".join(op["types"].get(n, "uint8 {};").format(n) + "\n" for n in fields) + f"uint8 data_[{exprs[i]}];\nuint8 tail_;\n}};\n"
                try:
                    c2.load(text, compiled=op["compiled"])
                except Exception as e:  # noqa: BLE001
                    ctx.fail("rejected", f"array length {exprs[i]!r} rejected: {e!r}")
                arrays[key] = c2.T
            T = arrays[key]
            n = max(0, w)
            data = bytes(fields.values()) + bytes(x % 251 + 1 for x in range(n)) + b"\xee"
            if op["cut"]:
                try:
                    T(data[:len(data) // 2])
                except EOFError:
                    ctx.stat("fault:truncated_stream")
                except Exception:  # noqa: BLE001
                    pass
            try:
                o = T(data)
                got = list(o.data_)
                ok = got == list(data[len(fields):len(fields) + n]) and o.tail_ == 0xEE
            except Exception as e:  # noqa: BLE001
                ok, got = False, e
            if not ok:
                ctx.fail("array-length", f"data_[{exprs[i]}] with fields {fields}, constants {consts}, compiled={op['compiled']}: expected "
                         f"{n} elements, got {got!r}")
            compared += 1
            ctx.stat("probe:in_array_length")
            ctx.log(k, kind, i, n)
        else:
            w = want(i, {})
            if w is None or (op["where"] == "bound" and w > 3000):
                continue
            c2 = cstruct()
            pre = types(sizes) + "".join(constant(n, v, ckinds.get(n)) for n, v in consts.items())
            e = exprs[i]
            try:
                if op["where"] == "define":
                    c2.load(pre + f"#define RESULT {e}\n")
                    got = c2.consts["RESULT"]
                elif op["where"] == "enum":
                    c2.load(pre + f"enum EE : int64 {{ RESULT = {e}, NEXT_ }};\n")
                    got = c2.EE.RESULT.value
                    if c2.EE.NEXT_.value != w + 1:
                        got = (got, c2.EE.NEXT_.value)
                else:
                    c2.load(pre + f"struct T {{ uint16 d_[{e}]; uint8 t_; }};\n")
                    got = (len(c2.T) - 1) // 2
                    w = max(0, w)
            except Exception as exc:  # noqa: BLE001
                ctx.fail("rejected", f"{e!r} as {op['where']} with constants {consts} rejected: {exc!r}, expected {w}")
            ctx.check(got == w, "value", lambda: f"{e!r} as {op['where']} with constants {consts} gave {got!r}, expected {w}")
            compared += 1
            ctx.stat({"define": "probe:in_define", "enum": "probe:in_enum", "bound": "probe:in_array_bound"}[op["where"]])
            ctx.log(k, "text", op["where"], w)
    ctx.nontrivial = compared >= 8 and again > 0


def shrink(plan):
    """Simpler expressions: drop tokens while the text stays well formed under the reference grammar."""
    import copy

    for i, e in enumerate(plan["exprs"]):
        toks = [v for _, v in refexpr.tokenize(e)]
        for n in (8, 4, 3, 2, 1):
            for a in range(0, len(toks) - n + 1):
                cand = toks[:a] + toks[a + n:]
                text = " ".join(cand)
                try:
                    refexpr.evaluate(text, {x: 1 for x in IDS}, {}, sizeof)
                except refexpr.NegDiv:
                    pass
                except refexpr.ExprError:
                    continue
                p = copy.deepcopy(plan)
                p["exprs"][i] = text
                yield p
