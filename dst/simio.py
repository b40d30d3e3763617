"""Simulated streams: seekable file with a fault plan, and a short-reading raw device for io.BufferedReader."""

from __future__ import annotations

import io


class SimError(OSError):
    """Injected device error."""


class SimAbort(Exception):
    """Injected non-OSError failure."""


class StepLimit(BaseException):
    """The library made more stream calls than any terminating execution could."""


EXC = {"OSError": SimError, "Abort": SimAbort, "EOFError": EOFError, "MemoryError": MemoryError, "ValueError": ValueError,
       "Interrupt": KeyboardInterrupt, "Blocking": BlockingIOError}


class SimFile:
    """Seekable binary file over a byte string.

    faults: list of {"op": read|seek|tell|write, "at": j (0-based index among calls of that op), "kind": raise|short|none,
                     "exc": name, "keep": n}
    """

    def __init__(self, data=b"", pos=0, faults=(), limit=None, hook=None, bad=None):
        self.data = bytearray(data)
        self.pos = pos
        self.counts = {"read": 0, "seek": 0, "tell": 0, "write": 0}
        self.faults = {(f["op"], f["at"]): f for f in faults}
        self.fired = []
        self.log = []
        self.limit = limit or 200000 + 100 * len(self.data)
        self.steps = 0
        self.hook = hook
        self.bad = bad  # (offset, exception name): device error for every read that covers this offset
        self.armed = True

    def _fault(self, op):
        j = self.counts[op]
        self.counts[op] = j + 1
        self.steps += 1
        if self.steps > self.limit:
            raise StepLimit(f"{self.steps} stream calls")
        if self.hook:
            self.hook(op)
        f = self.faults.get((op, j)) if self.armed else None
        if f and f["kind"] == "raise":
            self.fired.append(f)
            self.log.append((op, "raise", f["exc"]))
            raise EXC[f["exc"]](f"injected at {op} #{j}")
        return f

    def read(self, n=-1):
        f = self._fault("read")
        if n is None or n < 0:
            want = max(0, len(self.data) - self.pos)
        else:
            want = n
        chunk = bytes(self.data[self.pos:self.pos + want])
        if self.bad and self.pos <= self.bad[0] < self.pos + len(chunk):
            self.fired.append({"kind": "bad", "exc": self.bad[1]})
            self.log.append(("read", "bad", self.bad[1]))
            raise EXC[self.bad[1]](f"injected device error at offset {self.bad[0]}")
        if f:
            if f["kind"] == "none":
                self.fired.append(f)
                self.log.append(("read", n, self.pos, None))
                return None
            if f["kind"] == "short" and f["keep"] < len(chunk):
                self.fired.append(f)
                chunk = chunk[:f["keep"]]
        self.log.append(("read", n, self.pos, len(chunk)))
        self.pos += len(chunk)
        return chunk

    def seek(self, off, whence=0):
        self._fault("seek")
        if whence == 0:
            new = int(off)
        elif whence == 1:
            new = self.pos + int(off)
        else:
            new = len(self.data) + int(off)
        if new < 0:
            raise ValueError(f"negative seek value {new}")
        self.log.append(("seek", int(off), whence, new))
        self.pos = new
        return new

    def tell(self):
        self._fault("tell")
        self.log.append(("tell", self.pos))
        return self.pos

    def write(self, b):
        f = self._fault("write")
        b = bytes(b)
        if f and f["kind"] == "short" and f["keep"] < len(b):
            self.fired.append(f)
            b = b[:f["keep"]]
        if self.pos > len(self.data):
            self.data += bytes(self.pos - len(self.data))
        self.data[self.pos:self.pos + len(b)] = b
        self.log.append(("write", self.pos, len(b)))
        self.pos += len(b)
        return len(b)

    def seekable(self):
        return True

    def readable(self):
        return True


class SimRaw(io.RawIOBase):
    """Raw device delivering chunks according to an explicit list of maximum chunk sizes (cycled)."""

    def __init__(self, data, chunks):
        super().__init__()
        self.data = bytes(data)
        self.chunks = chunks or [1 << 30]
        self.i = 0
        self.p = 0
        self.shorts = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        c = self.chunks[self.i % len(self.chunks)]
        self.i += 1
        n = min(len(b), c, max(0, len(self.data) - self.p))
        if n < min(len(b), max(0, len(self.data) - self.p)):
            self.shorts += 1
        b[:n] = self.data[self.p:self.p + n]
        self.p += n
        return n

    def seek(self, off, whence=0):
        self.p = off if whence == 0 else self.p + off if whence == 1 else len(self.data) + off
        return self.p

    def tell(self):
        return self.p
