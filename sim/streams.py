"""Simulated binary streams.

A `Store` is the storage medium; `SimRaw` a raw (unbuffered) stream on it, with
short reads and writes, errors, early end of data, failing seek/flush/close, and
an optional forward-only mode.  `open_stream` builds what the code under test is
given: the raw stream itself, a real io.Buffered* around it, a duck-typed
buffered stream, or a real io.BytesIO.
"""
import errno
import io

from .kernel import InvalidPlan, StepLimit

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EPIPE": errno.EPIPE, "EDQUOT": errno.EDQUOT}


class Store:
    def __init__(self, data=b""):
        self.data = bytearray(data)

    def bytes(self):
        return bytes(self.data)


def mkerr(name):
    e = OSError(ERRNO[name], "simulated " + name)
    e.simulated = True
    return e


class _Faults:
    def __init__(self, world, cfg, name):
        self.world = world
        self.name = name
        self.set([dict(f) for f in cfg.get("faults", ())])
        self.counts = {}
        self.armed = True
        self.fired = []

    def set(self, faults):
        for f in faults:
            if f.get("errno") not in ERRNO or f.get("op") not in ("read", "write", "seek", "flush", "close") or "n" not in f:
                raise InvalidPlan("fault")
        self.faults = faults

    def hit(self, op):
        """Returns None or the fault to apply for this call of `op`."""
        n = self.counts.get(op, 0)
        self.counts[op] = n + 1
        if not self.armed:
            return None
        for f in self.faults:
            if f["op"] == op and (f["n"] == n or (f.get("sticky") and n > f["n"])):
                self.world.fault(f"{op}:{f['errno']}" + (":sticky" if f.get("sticky") else ""))
                self.fired.append((op, n))
                return f
        return None


class SimRaw(io.RawIOBase):
    def __init__(self, world, store, cfg, name="s"):
        self._w = world
        self.store = store
        self.cfg = cfg
        self.sname = name
        self.pos = cfg.get("pos", 0)
        self.rch = cfg.get("rchunks") or [0]
        self.wch = cfg.get("wchunks") or [0]
        self.ri = self.wi = 0
        self.fl = _Faults(world, cfg, name)
        self.closes = 0
        self.eof = cfg.get("eof")
        self.cap = cfg.get("cap")
        self.wrote = 0
        self.reads_after_eof = 0

    # -- capabilities
    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return bool(self.cfg.get("seekable", True))

    def _end(self):
        n = len(self.store.data)
        return n if self.eof is None else min(n, self.eof)

    # -- reading
    def _take(self, n):
        self._check()
        f = self.fl.hit("read")
        if f is not None:
            self._w.log(self.sname, "read!", n, self.pos)
            raise mkerr(f["errno"])
        avail = max(0, self._end() - self.pos)
        k = min(n, avail)
        ch = self.rch[self.ri % len(self.rch)]
        self.ri += 1
        if ch and k > ch:
            k = ch
            self._w.fault("short-read")
        if n and k == 0:
            self.reads_after_eof += 1
            self._w.probe("read-at-eof")
        out = bytes(self.store.data[self.pos : self.pos + k])
        self._w.log(self.sname, "read", n, self.pos, k)
        self.pos += k
        return out

    def readinto(self, b):
        data = self._take(len(b))
        b[: len(data)] = data
        return len(data)

    def read(self, n=-1):
        if n is None or n < 0:
            parts = []
            while True:
                part = self._take(1 << 16)
                if not part:
                    return b"".join(parts)
                parts.append(part)
        return self._take(n)

    def readall(self):
        return self.read(-1)

    # -- writing
    def write(self, b):
        self._check()
        b = bytes(b)
        f = self.fl.hit("write")
        if f is not None:
            part = min(f.get("partial", 0), len(b))
            if part:
                self._put(b[:part])
            self._w.log(self.sname, "write!", len(b), self.pos, part)
            raise mkerr(f["errno"])
        k = len(b)
        ch = self.wch[self.wi % len(self.wch)]
        self.wi += 1
        if ch and k > ch:
            k = ch
            self._w.fault("short-write")
        if self.cap is not None and self.fl.armed:
            room = self.cap - self.wrote
            if room <= 0 and k:
                self._w.fault("full-disk")
                self.fl.fired.append(("write", "full"))
                self._w.log(self.sname, "write full", len(b), self.pos)
                raise mkerr("ENOSPC")
            k = min(k, room)
        self._w.log(self.sname, "write", self.pos, b[:k])
        self._put(b[:k])
        return k

    def _put(self, b):
        d = self.store.data
        if self.pos > len(d):
            d.extend(bytes(self.pos - len(d)))
        d[self.pos : self.pos + len(b)] = b
        self.pos += len(b)
        self.wrote += len(b)

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        self._w.log(self.sname, "truncate", size)
        d = self.store.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(bytes(size - len(d)))
        return size

    # -- positioning
    def seek(self, off, whence=0):
        self._check()
        if not self.seekable():
            raise io.UnsupportedOperation("not seekable")
        f = self.fl.hit("seek")
        if f is not None:
            self._w.log(self.sname, "seek!", off, whence)
            raise mkerr(f["errno"])
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += self._end()
        if off < 0:
            raise ValueError("negative seek position")
        self.pos = off
        self._w.log(self.sname, "seek", off)
        return off

    def tell(self):
        self._check()
        if not self.seekable():
            raise io.UnsupportedOperation("not seekable")
        return self.pos

    def flush(self):
        if self.closed:
            return
        f = self.fl.hit("flush")
        if f is not None:
            self._w.log(self.sname, "flush!")
            raise mkerr(f["errno"])

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def close(self):
        if self.closed:
            return
        self.closes += 1
        f = self.fl.hit("close")
        self._w.log(self.sname, "close", bool(f))
        super().close()
        if f is not None:
            raise mkerr(f["errno"])

    def __del__(self):  # never let the GC act on the simulated world
        pass


class SimDuck(io.BufferedIOBase):
    """A buffered-interface stream that passes every call straight to the
    simulated medium (like a remote or compressed file object)."""

    def __init__(self, raw):
        self.simraw = raw

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return self.simraw.seekable()

    def read(self, n=-1):
        if n is None or n < 0:
            return self.simraw.read(-1)
        parts = []
        left = n
        while left:
            part = self.simraw._take(left)
            if not part:
                break
            parts.append(part)
            left -= len(part)
        return b"".join(parts)

    def readinto(self, b):
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        off = 0
        while off < len(b):
            off += self.simraw.write(b[off:])
        return len(b)

    def seek(self, off, whence=0):
        return self.simraw.seek(off, whence)

    def tell(self):
        return self.simraw.tell()

    def flush(self):
        if not self.closed:
            self.simraw.flush()

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self.simraw.close()

    def __del__(self):
        pass


class SimBare:
    """A forward-only stream that knows no position: without tell and seek."""

    def __init__(self, f):
        self._f = f

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return False

    def read(self, n=-1):
        return self._f.read(n)

    def write(self, b):
        return self._f.write(b)

    def flush(self):
        self._f.flush()

    def close(self):
        self._f.close()

    @property
    def closed(self):
        return self._f.closed


class Handle:
    """What `open_stream` returns: `.f` goes to the code under test."""

    def __init__(self, f, raw, store, layer):
        self.f = f
        self.raw = raw
        self.store = store
        self.layer = layer

    def fired(self):
        return bool(self.raw and self.raw.fl.fired)

    def content(self):
        if self.layer == "bytesio":
            return self.f.getvalue() if not self.f.closed else bytes(self.kept)
        return self.store.bytes()


class KeepBytesIO(io.BytesIO):
    """BytesIO whose content survives close (so the harness can look at it)."""

    kept = None
    world = None

    def read(self, *a):
        w = self.world
        if w is not None:
            w.ops += 1
            if w.ops > w.budget:
                raise StepLimit(f"more than {w.budget} simulated operations")
        return super().read(*a)

    def close(self):
        if not self.closed:
            self.kept = self.getvalue()
        super().close()


def open_stream(world, store, cfg, mode, name="s"):
    """mode: 'r' or 'w'."""
    layer = cfg.get("layer", "buf")
    if layer == "bytesio":
        f = KeepBytesIO(store.bytes())
        f.world = world
        f.seek(cfg.get("pos", 0))
        return Handle(f, None, store, layer)
    raw = SimRaw(world, store, cfg, name)
    if layer == "duck" and cfg.get("bare") and cfg.get("seekable") is False:
        return Handle(SimBare(SimDuck(raw)), raw, store, layer)
    if layer == "raw":
        return Handle(raw, raw, store, layer)
    if layer == "duck":
        return Handle(SimDuck(raw), raw, store, layer)
    if layer == "buf":
        size = max(1, cfg.get("bufsize", 64))
        if mode == "r":
            return Handle(io.BufferedReader(raw, size), raw, store, layer)
        if cfg.get("seekable", True) and cfg.get("rw"):
            return Handle(io.BufferedRandom(raw, size), raw, store, layer)
        return Handle(io.BufferedWriter(raw, size), raw, store, layer)
    raise InvalidPlan(f"layer {layer}")


def stored(handle):
    """Bytes on the medium now."""
    if handle.layer == "bytesio":
        f = handle.f
        return f.kept if f.closed else f.getvalue()
    return handle.store.bytes()


# ---------------------------------------------------------------- generators
def gen_chunks(rng):
    k = rng.random()
    if k < 0.35:
        return [0]
    if k < 0.55:
        return [1]
    if k < 0.75:
        return [rng.randint(1, 5) for _ in range(rng.randint(1, 6))]
    return [rng.choice([0, 0, 1, 2, 3, 7, 8, 16, 100]) for _ in range(rng.randint(2, 7))]


def gen_rcfg(rng, *, layers=("raw", "buf", "duck", "bytesio"), forward=0.3):
    cfg = {"layer": rng.choice(layers)}
    if cfg["layer"] == "bytesio":
        return cfg
    cfg["rchunks"] = gen_chunks(rng)
    if cfg["layer"] == "buf":
        cfg["bufsize"] = rng.choice([1, 2, 3, 8, 17, 64, 512, 8192])
    if rng.random() < forward:
        cfg["seekable"] = False
    return cfg


def gen_wcfg(rng, *, layers=("raw", "buf", "duck", "bytesio"), forward=0.0):
    cfg = {"layer": rng.choice(layers)}
    if cfg["layer"] == "bytesio":
        return cfg
    cfg["wchunks"] = gen_chunks(rng)
    if cfg["layer"] == "buf":
        cfg["bufsize"] = rng.choice([1, 2, 3, 8, 17, 64, 512, 8192])
        cfg["rw"] = rng.random() < 0.3
    if rng.random() < forward:
        cfg["seekable"] = False
    return cfg
