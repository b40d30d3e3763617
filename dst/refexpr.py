"""Reference evaluator for the integer expression language: own tokenizer, precedence climbing, unbounded integers.

Independent of dissect.cstruct.expression: recursive descent instead of shunting-yard.
"""

from __future__ import annotations

import re


class ExprError(Exception):
    pass


_TOK = re.compile(
    r"\s*(?:(?P<num>0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)(?P<suf>[uUlL]*)(?![A-Za-z0-9_])"
    r"|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op><<|>>|[-+*/%&^|()~]))"
)

_LEVELS = [["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]


def tokenize(text: str) -> list[tuple[str, str]]:
    pos, out = 0, []
    text = text.strip()
    while pos < len(text):
        m = _TOK.match(text, pos)
        if not m:
            raise ExprError(f"bad token at {pos} in {text!r}")
        pos = m.end()
        if m.group("num"):
            out.append(("num", m.group("num")))
        elif m.group("id"):
            out.append(("id", m.group("id")))
        else:
            out.append(("op", m.group("op")))
    return out


def literal(s: str) -> int:
    low = s.lower()
    if low.startswith("0x"):
        return int(low, 16)
    if low.startswith("0b"):
        return int(low, 2)
    if len(s) > 1 and s[0] == "0":
        return int(s, 8)
    return int(s, 10)


def evaluate(text: str, ctx=None, consts=None, sizeof=None) -> int:
    toks = tokenize(text)
    pos = 0
    ctx = ctx or {}
    consts = consts or {}

    def peek():
        return toks[pos] if pos < len(toks) else (None, None)

    def take():
        nonlocal pos
        t = peek()
        if t[0] is None:
            raise ExprError("unexpected end")
        pos += 1
        return t

    def primary():
        kind, val = take()
        if kind == "num":
            return literal(val)
        if kind == "id":
            if val == "sizeof" and "sizeof" not in ctx and peek() == ("op", "("):
                take()
                words = []
                while peek()[0] == "id":
                    words.append(take()[1])
                if take() != ("op", ")"):
                    raise ExprError("bad sizeof")
                return sizeof(" ".join(words))
            if val in ctx:
                return int(ctx[val])
            if val in consts:
                return int(consts[val])
            raise ExprError(f"unknown identifier {val}")
        if (kind, val) == ("op", "("):
            v = level(0)
            if take() != ("op", ")"):
                raise ExprError("missing )")
            return v
        if (kind, val) == ("op", "-"):
            return -primary()
        if (kind, val) == ("op", "~"):
            return ~primary()
        raise ExprError(f"unexpected {val!r}")

    def level(n):
        if n == len(_LEVELS):
            return primary()
        left = level(n + 1)
        while peek()[0] == "op" and peek()[1] in _LEVELS[n]:
            op = take()[1]
            right = level(n + 1)
            if op == "|":
                left |= right
            elif op == "^":
                left ^= right
            elif op == "&":
                left &= right
            elif op == "<<":
                if right < 0:
                    raise ExprError("shift")
                if right > 4096 or left.bit_length() > 20000:
                    raise BigShift
                left <<= right
            elif op == ">>":
                if right < 0:
                    raise ExprError("shift")
                left >>= min(right, 100000)
            elif op == "+":
                left += right
            elif op == "-":
                left -= right
            elif op == "*":
                left *= right
            else:
                if right == 0:
                    raise ExprError("division by zero")
                # as in C for non-negative operands; Python floor division otherwise is outside the property
                if left < 0 or right < 0:
                    raise NegDiv
                left = left // right if op == "/" else left % right
        return left

    v = level(0)
    if pos != len(toks):
        raise ExprError("trailing tokens")
    return v


class NegDiv(ExprError):
    """Division with a negative operand: outside the property's domain."""


class BigShift(ExprError):
    """Left shift that would need absurd amounts of memory."""
