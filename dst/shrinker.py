"""Generic plan minimisation: delete list elements, simplify programs, shrink numbers and byte strings."""

from __future__ import annotations

import copy


def _paths_lists(plan, keys):
    for k in keys:
        if isinstance(plan.get(k), list):
            yield k


def list_cuts(n):
    """Index ranges to delete: large blocks first."""
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            yield s, min(n, s + size)
        size //= 2
    if n == 1:
        yield 0, 1


def drop_from(plan, key):
    lst = plan[key]
    seen = set()
    for a, b in list_cuts(len(lst)):
        if (a, b) in seen:
            continue
        seen.add((a, b))
        p = copy.deepcopy(plan)
        del p[key][a:b]
        yield p


def walk_structs(prog, path=()):
    """Yield accessor functions for every field list in the program."""
    def rec_t(t, acc):
        if t[0] == "inl":
            yield lambda p, acc=acc: acc(p)[1]
            for i, f in enumerate(t[1]["fields"]):
                yield from rec_t(f["t"], lambda p, acc=acc, i=i: acc(p)[1]["fields"][i]["t"])
        elif t[0] in ("arr", "ptr"):
            yield from rec_t(t[1], lambda p, acc=acc: acc(p)[1])

    for di, d in enumerate(prog["decls"]):
        if d["k"] in ("struct", "union"):
            yield lambda p, di=di: p["decls"][di]
            for fi, f in enumerate(d["fields"]):
                yield from rec_t(f["t"], lambda p, di=di, fi=fi: p["decls"][di]["fields"][fi]["t"])


def program(plan, key="prog"):
    prog = plan.get(key)
    if not isinstance(prog, dict) or "decls" not in prog:
        return
    for i in range(len(prog["decls"])):
        if prog["decls"][i].get("name") == prog.get("top"):
            continue
        p = copy.deepcopy(plan)
        del p[key]["decls"][i]
        yield p
    accs = list(walk_structs(prog))
    for acc in accs:
        n = len(acc(prog)["fields"])
        if n > 1:
            for i in range(n):
                p = copy.deepcopy(plan)
                del acc(p[key])["fields"][i]
                yield p
    for acc in accs:
        for i, f in enumerate(acc(prog)["fields"]):
            t = f["t"]
            alts = []
            if t[0] == "inl":
                alts += [["n", "uint8"], ["n", "uint32"]]
            elif t[0] == "arr":
                alts += [t[1]]
                if isinstance(t[2], int) and t[2] > 1:
                    alts.append(["arr", t[1], 1])
                if isinstance(t[2], list) and len(t[2][1]) > 1:
                    alts.append(["arr", t[1], 1])
            elif t[0] == "ptr":
                alts += [["n", "uint8"], ["ptr", ["n", "uint8"]]] if t[1] != ["n", "uint8"] else [["n", "uint8"]]
            elif t != ["n", "uint8"] and not f.get("b"):
                alts += [["n", "uint8"]]
            for alt in alts:
                p = copy.deepcopy(plan)
                acc(p[key])["fields"][i]["t"] = alt
                yield p
    for acc in accs:
        for i, f in enumerate(acc(prog)["fields"]):
            if f.get("tag"):
                p = copy.deepcopy(plan)
                acc(p[key])["fields"][i].pop("tag")
                yield p
    for i, d in enumerate(prog["decls"]):
        for k in ("style", "aliases", "nocompile", "selfref"):
            if d.get(k):
                p = copy.deepcopy(plan)
                p[key]["decls"][i].pop(k)
                yield p
        if d["k"] in ("enum", "flag"):
            for j in range(len(d["members"])):
                if len(d["members"]) > 1:
                    p = copy.deepcopy(plan)
                    del p[key]["decls"][i]["members"][j]
                    yield p
    if prog.get("align"):
        p = copy.deepcopy(plan)
        p[key]["align"] = False
        yield p
    if prog.get("endian") != "<":
        p = copy.deepcopy(plan)
        p[key]["endian"] = "<"
        yield p
    if prog.get("pointer") != "uint64":
        p = copy.deepcopy(plan)
        p[key]["pointer"] = "uint64"
        yield p


def candidates(prop, plan):
    if hasattr(prop, "shrink"):
        yield from prop.shrink(plan)
    for key in getattr(prop, "LISTS", ()):
        if isinstance(plan.get(key), list) and plan[key]:
            yield from drop_from(plan, key)
    for key in getattr(prop, "PROGS", ("prog",)):
        yield from program(plan, key)
    for key in getattr(prop, "BYTES", ()):
        v = plan.get(key)
        if isinstance(v, str) and v:
            z = "00" * (len(v) // 2)
            if v != z:
                yield {**copy.deepcopy(plan), key: z}
                for i in range(0, len(v), 2):
                    if v[i:i + 2] != "00":
                        yield {**copy.deepcopy(plan), key: v[:i] + "00" + v[i + 2:]}
    for key in getattr(prop, "NUMS", ()):
        v = plan.get(key)
        if isinstance(v, int) and v > 0:
            for c in (0, v // 2, v - 1):
                if c != v:
                    yield {**copy.deepcopy(plan), key: c}
