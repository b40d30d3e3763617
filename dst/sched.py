"""Deterministic scheduler for real threads.

Every simulated thread is a real thread that runs only while it holds the baton.  A trace function turns every executed source line
(in fine mode also every call and return, and every stream call; in mode "op" every bytecode instruction) of the code under test into a yield point at which the scheduler decides, from a seeded policy or from an
explicit list of switches, who runs next.  Locks created by the code under test are replaced by simulated ones, so a thread that is
descheduled while holding a lock blocks only the threads that want it.
"""

from __future__ import annotations

import _thread
import sys
import threading

_real_allocate = _thread.allocate_lock
_real_get_ident = _thread.get_ident

CURRENT = None  # the running scheduler, if any


class Killed(BaseException):
    """Delivered into simulated threads when a run is abandoned."""


class Deadlock(Exception):
    pass


class StepBudget(Exception):
    pass


class SimLock:
    """threading.Lock / RLock stand-in. Outside of a simulation there is no contention, so plain counters suffice."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        s = CURRENT
        t = s.by_ident.get(_real_get_ident()) if s else None
        return t if t is not None else -1

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            s = CURRENT
            if s is None or me == -1:
                raise Deadlock("lock acquired outside of the simulation while it is held")
            if timeout > 0:
                # a timeout expires only when nothing else can run
                if not s.block(me, self, can_expire=True):
                    return False
            else:
                s.block(me, self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # protocol used by threading.Condition
    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        d, self.depth, self.owner = self.depth, 0, None
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self.depth = d

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


class SimRLock(SimLock):
    reentrant = True


def install_locks():
    """Route lock creation of modules imported from now on to simulated locks."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._CRLock = SimRLock
    threading._allocate_lock = SimLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock


class Policy:
    """kind: explicit | random | pct | rr | burst"""

    def __init__(self, spec, rng, n):
        self.spec, self.rng, self.n = spec, rng, n
        self.kind = spec["kind"]
        if self.kind == "explicit":
            self.switches = {(int(a), int(b)): int(c) for a, b, c in spec["switches"]}
        elif self.kind == "pct":
            self.prio = list(range(n))
            rng.shuffle(self.prio)
            self.change = {}
            for q in range(spec["d"]):
                self.change[rng.randrange(1, spec["len"])] = -1 - q
        elif self.kind == "burst":
            self.left = 0
            self.fast = False

    def pick(self, step, cur, ready, at=None):
        """Who runs next. ready is a non-empty sorted list; cur may or may not be in it; at = (thread, its own yield count)."""
        k = self.kind
        if k == "explicit":
            t = self.switches.get(at)
            if t is not None and t in ready:
                return t
            return cur if cur in ready else ready[0]
        if k == "random":
            if cur in ready and self.rng.random() >= self.spec["p"]:
                return cur
            return self.rng.choice(ready)
        if k == "pct":
            if step in self.change and cur is not None:
                self.prio[cur] = self.change[step]
            return max(ready, key=lambda t: self.prio[t])
        if k == "rr":
            if cur in ready and step % self.spec["q"]:
                return cur
            return next((t for t in ready if cur is not None and t > cur), ready[0])
        if k == "burst":
            # quiet stretches alternating with stretches of rapid switching
            if self.left == 0:
                self.fast = not self.fast
                self.left = self.rng.randrange(1, 40 if self.fast else self.spec["q"])
            self.left -= 1
            if cur in ready and not self.fast:
                return cur
            return self.rng.choice(ready)
        raise AssertionError(k)


class Scheduler:
    def __init__(self, bodies, policy, match, fine=False, limit=400000, kill=None):
        """bodies: callables; match(filename) -> is this code under test; kill: {tid: (nth yield, exception)}."""
        self.bodies = bodies
        self.n = len(bodies)
        self.policy = policy
        self.match = match
        self.fine = fine
        self.limit = limit * (20 if fine == "op" else 1)
        self.kill = dict(kill or {})
        self.gates = [_real_allocate() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.main = _real_allocate()
        self.main.acquire()
        self.by_ident = {}
        self.state = ["ready"] * self.n  # ready | blocked | done
        self.want = [None] * self.n
        self.results = [None] * self.n
        self.step = 0
        self.yields = [0] * self.n
        self.cur = None
        self.switches = []  # explicit trace of all decisions that changed the running thread
        self.where = []
        self.points = set()
        self.abort = None
        self.killed = []

    # --- called from simulated threads
    def trace(self, tid):
        match = self.match

        def local(frame, event, arg):
            if event == "line" or (event == "return" and self.fine):
                self.yield_point(tid, frame)
            return local

        def glob(frame, event, arg):
            if match(frame.f_code.co_filename):
                if self.fine:
                    self.yield_point(tid, frame)
                return local
            return None

        return glob

    def ready(self):
        out = []
        for t in range(self.n):
            if self.state[t] == "ready":
                out.append(t)
            elif self.state[t] == "blocked":
                lk = self.want[t][0]
                if lk.owner is None or (lk.reentrant and lk.owner == t):
                    out.append(t)
        return out

    def yield_point(self, tid, frame):
        if self.abort is not None:
            raise Killed
        self.yields[tid] += 1
        k = self.kill.get(tid)
        if k and self.yields[tid] == k[0]:
            self.killed.append(tid)
            raise k[1]
        self.step += 1
        if self.step > self.limit:
            self.stop(StepBudget(f"{self.step} steps"))
            raise Killed
        ready = self.ready()
        nxt = self.policy.pick(self.step, tid, ready, (tid, self.yields[tid])) if len(ready) > 1 else tid
        if nxt != tid:
            self.note(tid, nxt, frame)
            self.hand(tid, nxt)

    def stream_point(self, *_):
        """Yield point for simulated streams (I/O is where threads really switch)."""
        tid = self.by_ident.get(_real_get_ident())
        if self.fine and tid is not None and CURRENT is self:
            self.yield_point(tid, None)

    def note(self, tid, nxt, frame):
        self.switches.append([tid, self.yields[tid], nxt])
        if frame is not None:
            p = (frame.f_code.co_qualname, frame.f_lineno)
            self.points.add((frame.f_code.co_qualname, (frame.f_lineno or 0) - frame.f_code.co_firstlineno))
            if len(self.where) < 400:
                self.where.append((self.step, tid, nxt, *p))

    def hand(self, tid, nxt):
        self.cur = nxt
        self.gates[nxt].release()
        self.gates[tid].acquire()
        if self.abort is not None:
            raise Killed

    def block(self, tid, lock, can_expire=False):
        """Wait until the lock may be free. Returns False when a timed wait expired."""
        if self.abort is not None:
            raise Killed
        self.yields[tid] += 1
        self.state[tid] = "blocked"
        self.want[tid] = (lock, can_expire)
        ready = self.ready()
        self.step += 1
        if self.step > self.limit:
            self.stop(StepBudget(f"{self.step} steps"))
            raise Killed
        if not ready:
            exp = [t for t in range(self.n) if self.state[t] == "blocked" and self.want[t][1]]
            if not exp:
                self.stop(Deadlock("all threads are blocked"))
                raise Killed
            t = exp[0]
            self.state[t] = "ready"
            if t == tid:
                return False
            self.want[t] = (self.want[t][0], "expired")
            ready = [t]
        nxt = self.policy.pick(self.step, None, ready, (tid, self.yields[tid]))
        if nxt != tid:
            self.note(tid, nxt, None)
            self.hand(tid, nxt)
        expired = self.want[tid][1] == "expired"
        self.state[tid] = "ready"
        return not expired

    def stop(self, why):
        self.abort = why
        for t in range(self.n):
            if t != self.cur and self.state[t] != "done":
                self.gates[t].release()

    def run_thread(self, tid):
        self.by_ident[_real_get_ident()] = tid
        self.gates[tid].acquire()
        try:
            if self.abort is None:
                if self.fine != "op":
                    sys.settrace(self.trace(tid))
                try:
                    self.results[tid] = ("ok", self.bodies[tid]())
                finally:
                    sys.settrace(None)
        except Killed:
            pass
        except BaseException as e:  # noqa: BLE001
            self.results[tid] = ("raised", e)
        self.state[tid] = "done"
        if all(s == "done" for s in self.state):
            try:
                self.main.release()
            except RuntimeError:
                pass  # two abandoned threads finished at the same time
            return
        if self.abort is not None:
            return
        ready = self.ready()
        self.step += 1
        if not ready:
            self.stop(Deadlock("remaining threads are blocked"))
            return
        nxt = self.policy.pick(self.step, None, ready, (tid, -1))
        self.switches.append([tid, -1, nxt])
        self.cur = nxt
        self.gates[nxt].release()

    def instruction(self, code, offset):
        """sys.monitoring callback: every bytecode instruction is a yield point."""
        if not self.match(code.co_filename):
            return sys.monitoring.DISABLE
        tid = self.by_ident.get(_real_get_ident())
        if tid is not None and CURRENT is self and self.state[tid] != "done":
            self.yield_point(tid, sys._getframe(1))
        return None

    def run(self):
        global CURRENT
        CURRENT = self
        if self.fine == "op":
            mon = sys.monitoring
            mon.use_tool_id(4, "dst")
            mon.register_callback(4, mon.events.INSTRUCTION, self.instruction)
            mon.set_events(4, mon.events.INSTRUCTION)
        try:
            for t in range(self.n):
                _thread.start_new_thread(self.run_thread, (t,))
            # the first decision
            self.cur = self.policy.pick(0, None, list(range(self.n)), (-1, 0))
            self.switches.append([-1, 0, self.cur])
            self.gates[self.cur].release()
            self.main.acquire()
        finally:
            CURRENT = None
            if self.fine == "op":
                mon.set_events(4, 0)
                mon.register_callback(4, mon.events.INSTRUCTION, None)
                mon.free_tool_id(4)
        if self.abort is not None:
            raise self.abort
        return self.results
