"""Run context shared by all property modules."""

from __future__ import annotations

import hashlib
import json
import os
import sys
import traceback

REPO = os.environ.get("DST_REPO", "/repo")
LIBDIR = os.path.join(REPO, "dissect", "cstruct") + os.sep


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg = cls, msg


class Skip(Exception):
    """The plan is outside the modelled domain (only reached by minimisation candidates and rejected generations)."""


class Ctx:
    """Collects statistics, the event log digest and the coverage signature of one run."""

    def __init__(self, trace=False):
        self.stats = {}
        self.sigs = set()
        self.h = hashlib.blake2b(digest_size=16)
        self.nontrivial = False
        self.trace = [] if trace else None
        self.steps = 0
        self.sample = None
        self.hint = None  # plan changes that isolate the failing scenario (tried first by the minimiser)

    def stat(self, key, n=1):
        if n:
            self.stats[key] = self.stats.get(key, 0) + n

    def log(self, *event):
        s = repr(event)
        self.steps += 1
        self.h.update(s.encode("utf-8", "backslashreplace"))
        if self.trace is not None:
            self.trace.append(s if len(s) < 2000 else s[:2000] + "...")

    def state(self, *sig):
        self.sigs.add(hashlib.blake2b(repr(sig).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest())

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)


def lib_frames(tb):
    """Does the traceback pass through library code?"""
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(LIBDIR) or fr.filename.startswith("<compiled"):
            return True
    return False


def setup_paths():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import dissect.cstruct as dc

    f = os.path.realpath(dc.__file__)
    if not f.startswith(os.path.realpath(LIBDIR)):
        print(f"harness error: dissect.cstruct imported from {f}, not {LIBDIR}")
        sys.exit(2)
    # Pure speed-up: re.Scanner compiles its patterns anew for every load(); keep the compiled pattern per lexicon
    import re

    class CachedScanner(re.Scanner):
        cache = {}

        def __init__(self, lexicon, flags=0):
            key = (tuple(p for p, _ in lexicon), flags)
            if key in self.cache:
                self.lexicon, self.scanner = lexicon, self.cache[key]
            else:
                super().__init__(lexicon, flags)
                self.cache[key] = self.scanner

    re.Scanner = CachedScanner
    try:
        dc.cstruct().load("struct warm_up { uint8 a; };")
    except Exception:  # noqa: BLE001
        pass  # a broken library is for the checks to report


def run_plan(prop, plan, trace=False):
    """Execute one plan in this process. Returns a JSON-able outcome."""
    from . import model, simio

    ctx = Ctx(trace)
    out = {"status": "ok"}
    try:
        prop.execute(plan, ctx)
    except Violation as v:
        out = {"status": "violation", "cls": v.cls, "msg": v.msg}
    except (Skip, model.Invalid) as e:
        out = {"status": "skip", "msg": repr(e)}
    except simio.StepLimit as e:
        out = {"status": "violation", "cls": "no-termination", "msg": f"stream step limit exceeded: {e}"}
    except BaseException as e:  # noqa: BLE001
        text = "".join(traceback.format_exception(e))[-3000:]
        if lib_frames(e.__traceback__):
            out = {"status": "violation", "cls": f"crash:{type(e).__name__}", "msg": text}
        else:
            out = {"status": "error", "msg": text}
    if out["status"] == "violation" and ctx.hint:
        out["hint"] = ctx.hint
    out["digest"] = ctx.h.hexdigest()
    out["stats"] = ctx.stats
    out["sigs"] = sorted(ctx.sigs)
    out["nontrivial"] = ctx.nontrivial
    out["steps"] = ctx.steps
    if trace:
        out["trace"] = ctx.trace
    return out


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))
