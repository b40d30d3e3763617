"""Mutation study: which small changes of the library pass the existing tests, and which of those does no check notice?

  mutate.py tests OUT [FILE ...]        mutants that pass the test suite (one JSON object per line)
  mutate.py checks IN OUT [SCALE]       runs the checks on them (SCALE: fraction of the quick runs), appends the results to OUT
  mutate.py probe PID RUNS              (helper) first violation found in RUNS runs with the library of $DST_REPO
"""

import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/tmp/mut_base")
FILES = ["bitbuffer.py", "compiler.py", "cstruct.py", "expression.py", "parser.py"] + [
    f"types/{f}.py" for f in ("base", "char", "enum", "flag", "int", "leb128", "packed", "pointer", "structure", "void", "wchar")]
NPAR = int(os.environ.get("MUT_PAR", "8"))

CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
CMPSYM = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not",
          ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.FloorDiv: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.LShift: [">>"],
       ast.RShift: ["<<"], ast.Mod: ["*"], ast.BitXor: ["|"]}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def rep(n, new, what):
        a, b = span(n)
        out.append((n.lineno, f"{what}: {text(n)[:70]!r} -> {new[:70]!r}", (raw[:a] + new.encode() + raw[b:]).decode()))

    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            skip.update(ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for a in [*n.args.args, *n.args.kwonlyargs]:
                if a.annotation:
                    skip.update(ast.walk(a.annotation))
            if n.returns:
                skip.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
            if n.value is None:
                skip.add(n)
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(x for x in ast.walk(n) if x is not n)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP[type(n.ops[0])]:
                rep(n, f"({text(n.left)} {new} {text(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for new in BIN[type(n.op)]:
                rep(n, f"({text(n.left)} {new} {text(n.right)})", "binop")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                rep(n, f"({text(n.left)})", "drop operand")
        elif isinstance(n, ast.BoolOp):
            other = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + other.join(f"({text(v)})" for v in n.values) + ")", "boolop")
            mid = " and " if isinstance(n.op, ast.And) else " or "
            for k in range(len(n.values)):
                rep(n, "(" + mid.join(f"({text(v)})" for i, v in enumerate(n.values) if i != k) + ")", "drop clause")
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                rep(n, f"({text(n.operand)})", "unary")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, "True" if not isinstance(n, ast.While) else "False", "test")
            if not isinstance(n, ast.While):
                rep(n.test, "False", "test")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None), type(...))):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "const")
                if n.value:
                    rep(n, f"({n.value - 1})", "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bytes):
            rep(n, repr(n.value + b"\x01" if not n.value else b"\x01" * len(n.value)), "const")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Raise, ast.Continue, ast.Break, ast.Return)):
            if isinstance(n, ast.Return) and n.value is None:
                continue
            rep(n, "pass", "drop statement")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a, b = span(n.args[0]), span(n.args[1])
                new = raw[:a[0]] + raw[b[0]:b[1]] + raw[a[1]:b[0]] + raw[a[0]:a[1]] + raw[b[1]:]
                out.append((n.lineno, f"swap args: {text(n)[:90]}", new.decode()))
            for k in n.keywords:
                if k.arg:
                    rep(k.value, "None", "keyword")
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                rep(n, f"({text(n.args[0])})", "drop call")
        elif isinstance(n, ast.Slice):
            if n.lower and n.upper:
                rep(n, f"{text(n.lower)}:", "slice")
                rep(n, f":{text(n.upper)}", "slice")
            elif n.lower or n.upper:
                rep(n, ":", "slice")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, "ZeroDivisionError", "except")
            rep(n.type, "Exception", "except")
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 1 \
                and not isinstance(n, ast.Tuple):
            for k in range(len(n.elts)):
                br = "[]" if isinstance(n, ast.List) else "{}"
                rep(n, br[0] + ", ".join(text(v) for i, v in enumerate(n.elts) if i != k) + br[1], "drop element")
    seen = set()
    for line, what, new in out:
        if new in seen or new == src:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        yield line, what, new


def prepare():
    if not os.path.exists(BASE):
        subprocess.run(["cp", "-a", os.environ.get("MUT_SRC", "/repo"), BASE], check=True)
        subprocess.run(["find", BASE, "-name", "__pycache__", "-prune", "-exec", "rm", "-r", "{}", "+"])


def slots():
    prepare()
    res = []
    for i in range(NPAR):
        d = f"/tmp/mut_{i}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", BASE, d], check=True)
        res.append(d)
    return res


def with_mutant(d, f, new):
    shutil.rmtree(f"{d}/dissect", ignore_errors=True)
    shutil.copytree(f"{BASE}/dissect", f"{d}/dissect")
    with open(f"{d}/dissect/cstruct/{f}", "w") as fh:
        fh.write(new)


def run(cmd, cwd, env, timeout):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def pool(jobs, fn, out):
    ds = slots()
    free = list(ds)
    t0 = time.time()
    done = [0]

    def go(job):
        d = free.pop()
        try:
            r = fn(d, job)
        except Exception as e:  # noqa: BLE001
            print("tool error", job.get("what"), e, flush=True)
            r = None
        free.append(d)
        done[0] += 1
        if r:
            with open(out, "a") as fh:
                fh.write(json.dumps(r) + "\n")
        if done[0] % 50 == 0:
            print(f"{done[0]}/{len(jobs)} {time.time() - t0:.0f}s", flush=True)

    with ThreadPoolExecutor(NPAR) as ex:
        list(ex.map(go, jobs))
    for d in ds:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == "probe":
        sys.path.insert(0, HERE)
        os.chdir(HERE)
        from dst import core, runner

        pid, runs = sys.argv[2], int(sys.argv[3])
        core.setup_paths()
        prop = runner.load_prop(pid)
        if hasattr(prop, "setup"):
            prop.setup()
        err = None
        for i in range(runs):
            o = runner.one_run(prop, pid, runner.seed_for(pid, int(os.environ.get("VERIF_SEED", "1")), i), "quick")
            if o["status"] == "violation":
                print(json.dumps({"i": i, "cls": o["cls"], "msg": o["msg"][:300]}))
                return
            if o["status"] == "error" and err is None:
                err = o["msg"][-300:]
        print(json.dumps({"i": None, "err": err}))
    elif cmd == "tests":
        out = sys.argv[2]
        prepare()
        jobs = []
        for f in sys.argv[3:] or FILES:
            src = open(f"{BASE}/dissect/cstruct/{f}").read()
            jobs += [{"file": f, "line": ln, "what": w, "src": new} for ln, w, new in mutants(src)]
        random.Random(1).shuffle(jobs)
        if n := int(os.environ.get("MUT_MAX", "0")):
            jobs = jobs[:n]
        print(len(jobs), "mutants", flush=True)

        def fn(d, job):
            with_mutant(d, job["file"], job["src"])
            r = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=20", f"--basetemp={d}/bt", "tests"], d,
                    {"PYTHONPATH": d}, 120)
            return job if r is not None and r.returncode == 0 else None

        pool(jobs, fn, out)
    elif cmd == "checks":
        src, out = sys.argv[2:4]
        scale = float(sys.argv[4]) if len(sys.argv) > 4 else 0.05
        sys.path.insert(0, HERE)
        from dst import runner

        jobs = [json.loads(x) for x in open(src)]
        if os.path.exists(out):
            have = {(j["file"], j["line"], j["what"]) for j in map(json.loads, open(out))}
            jobs = [j for j in jobs if (j["file"], j["line"], j["what"]) not in have]
        pids = "C03 C05 C11 C16 C17 C18 C13 C10 C14 C08 C09 C15".split()
        every = "C03 C05 C11 C17 C18 C16 C14 C08 C09 C13 C15 C10"
        order = {"expression.py": "C10 C13 C03 C08 C09 C15", "parser.py": "C13 C10 C18 C03 C14", "cstruct.py": "C13 C14 C16 C18 C03 C05",
                 "types/enum.py": "C05 C03 C17 C14 C09 C13", "types/flag.py": "C05 C03 C17 C14 C09 C13", "bitbuffer.py": "C17 C03 C18 C08 C05",
                 "compiler.py": "C03 C18 C08 C05 C09 C16", "types/pointer.py": "C16 C03 C17 C11 C14",
                 "types/structure.py": "C18 C17 C11 C03 C08 C09 C14 C16 C15"}
        other = "C05 C08 C09 C03 C17 C16 C11 C14 C15"
        order = {f: (every if os.environ.get("MUT_ALL") else order.get(f, other)).split() for f in FILES}
        runs = {p: max(50, int(runner.load_prop(p).RUNS["quick"] * scale)) for p in pids}

        def fn(d, job):
            with_mutant(d, job["file"], job["src"])
            res = {}
            for p in order[job["file"]]:
                r = run([PY, os.path.join(HERE, "tools/mutate.py"), "probe", p, str(runs[p])], HERE, {"DST_REPO": d}, 600)
                try:
                    res[p] = json.loads(r.stdout.strip().splitlines()[-1])
                except Exception:  # noqa: BLE001
                    res[p] = {"i": None, "err": "no result: " + ((r.stderr or "")[-300:] if r else "timeout")}
                if res[p]["i"] is not None:
                    return {**job, "src": None, "by": p, "res": res[p]}
            return {**job, "by": None, "errs": {p: v["err"] for p, v in res.items() if v.get("err")}}

        pool(jobs, fn, out)


main()
