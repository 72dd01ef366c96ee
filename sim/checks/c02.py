"""C02: bit writes reach the stream exactly once and in order."""
from ..kernel import InvalidPlan, Violation, attempt, must
from ..spec import xbytes
from ..streams import Store, gen_wcfg, open_stream, stored

LEVEL = "exploration"
QUICK = 120000
THOROUGH = 1200000
CHUNK = 250
RULE = "Each run draws previous content, a destination stream (raw, buffered, duck-typed, in-memory; short writes; forward-only; without a position; non-zero start) and a sequence of writes, byte writes, flushes, alignments and seeks, and compares the final bytes and every reported position with a bit-array model."
REAL = ["dustmaker.bitio.BitIOWriter", "io.BufferedWriter / BufferedRandom / BytesIO when drawn"]
STUB = ["raw stream and storage medium"]
WIDTHS = (0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 15, 16, 16, 17, 24, 27, 31, 32, 32, 33, 64, 65, 100)


def gen(rng, tier):
    cfg = gen_wcfg(rng, forward=0.15)
    if cfg["layer"] == "duck" and cfg.get("seekable") is False:
        cfg["bare"] = rng.random() < 0.5
    n = rng.choice([0, 0, 1, 5, 20, 64])
    old = {"n": n, "k": rng.randrange(256)} if rng.random() < 0.7 else "\xff" * n
    if rng.random() < 0.4:
        cfg["pos"] = rng.randint(0, n + 3)
    fwd = cfg.get("seekable") is False
    if fwd:
        cfg.pop("rw", None)
        cfg["pos"] = min(cfg.get("pos", 0), n)
    ops = []
    for _ in range(rng.randint(1, 25)):
        k = rng.random()
        if k < 0.5:
            w = rng.choice(WIDTHS)
            if w == 0:
                ops.append(["w", 0, "0"])
                continue
            v = rng.choice([0, (1 << w) - 1, 1, rng.getrandbits(w), rng.getrandbits(w), -(1 << (w - 1)), -1])
            if rng.random() < 0.06:  # fits neither as an unsigned nor as a signed integer
                v = rng.choice([1 << w, (1 << w) + rng.getrandbits(w), -(1 << (w - 1)) - 1, -(1 << w), -(1 << w) + rng.getrandbits(w) // 2 - 1, 1 << (w + 3), -(1 << (w + 5))])
            ops.append(["w", w, str(v)])
        elif k < 0.65:
            ops.append(["b", {"n": rng.choice([0, 1, 2, 5, 17]), "k": rng.randrange(256)}])
        elif k < 0.73:
            ops.append(["a"])
        elif k < 0.81:
            ops.append(["f"])
        elif fwd:
            continue
        elif k < 0.88:
            ops.append(["k", rng.choice([8, 16, 24, 1, 3, -8, -16, -5, 0, rng.randint(-40, 80)])])
        else:
            p = rng.randint(0, 8 * (n + 6))
            if rng.random() < 0.5:
                p &= ~7
            ops.append(["s", p, rng.random() < 0.5])
    if rng.random() < 0.01:  # long stretches
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(0, len(ops))
            if rng.random() < 0.7:
                ops.insert(i, ["b", {"n": rng.choice([256, 512, 1025, 2048, 2049, 4096, 4097, 5000, 8200, rng.randint(0, 9000)] + [66000] * (rng.random() < 0.3)), "k": rng.randrange(256)}])
                if rng.random() < 0.3:
                    ops[i][1] = rng.choice("\0\0\xff") * min(ops[i][1]["n"], 9000)
                if rng.random() < 0.7:
                    ops.insert(i, ["w", rng.choice([1, 3, 4, 7]), "1"])
            else:
                w = rng.choice([129, 257, 1000, 8191, 20000])
                ops.insert(i, ["w", w, hex(rng.choice([0, 1, -1, (1 << w) - 1, rng.getrandbits(w)]))])
    return {"old": old, "cfg": cfg, "ops": ops, "noclose": rng.choice([0, 0, 1, 2])}


class Model:
    def __init__(self, data, pos):
        self.d = bytearray(data)
        self.pos = pos
        self.fresh = False  # inside a byte we sought into and have not written yet

    def bit(self, v):
        p = self.pos
        b = p >> 3
        if p & 7 == 0 or self.fresh:
            if b >= len(self.d):
                self.d.extend(bytes(b + 1 - len(self.d)))
            self.d[b] = 0
            self.fresh = False
        self.d[b] |= v << (p & 7)
        self.pos = p + 1

    def write(self, n, v):
        v &= (1 << n) - 1
        for i in range(n):
            self.bit((v >> i) & 1)

    def pad(self):
        """flush: with pending bits, step to the byte boundary."""
        if self.pos & 7 and not self.fresh:
            self.pos = (self.pos + 7) & ~7

    def align(self):
        self.pos = (self.pos + 7) & ~7
        self.fresh = False


def run(plan, world):
    from dustmaker.bitio import BitIOWriter

    old = xbytes(plan["old"])
    cfg = plan["cfg"]
    h = open_stream(world, Store(old), cfg, "w")
    seekable = cfg.get("seekable", True) or cfg["layer"] == "bytesio"
    start = cfg.get("pos", 0)
    if not seekable and start > len(old):
        raise InvalidPlan("start")
    base = 0 if seekable else start * 8
    m = Model(old, start * 8)
    nc = plan.get("noclose", 0)
    w = BitIOWriter(h.f, noclose=nc == 1)
    if nc == 2:
        w.release()
    if w.bit_tell() != m.pos - base:
        raise Violation("position", f"wrapping a stream at byte {start} reports bit {w.bit_tell()}")
    for i, op in enumerate(plan["ops"]):
        kind = op[0]
        if kind == "w":
            n, v = op[1], int(op[2] or "0", 0)
            if n < 0 or (n == 0 and v):
                raise InvalidPlan("width")
            if n == 0 and m.fresh:
                continue
            if n and not -(1 << (n - 1)) <= v < (1 << n):
                out = attempt(w.write, n, v)
                if out.ok:
                    raise Violation("accepted", f"op {i}: writing {v:#x} into {n} bits was not refused")
                world.probe("refused-value")
                if w.bit_tell() != m.pos - base:
                    raise Violation("position", f"op {i}: refusing {v:#x} for {n} bits moved the position from {m.pos - base} to {w.bit_tell()}")
                world.log(i, op, "refused")
                continue
            must(w.write, f"op {i} write", n, v)
            m.write(n, v)
        elif kind == "b":
            buf = xbytes(op[1])
            if not buf and m.fresh:
                continue
            if m.pos % 8:
                world.probe("unaligned-bytes")
            must(w.write_bytes, f"op {i} write_bytes", buf)
            for byt in buf:
                m.write(8, byt)
        elif kind == "a":
            must(w.align, f"op {i} align")
            m.align()
        elif kind == "f":
            if m.pos % 8:
                world.probe("flush-mid-byte")
            must(w.flush, f"op {i} flush")
            m.pad()
        elif kind in "ks":
            if not seekable:
                raise InvalidPlan("seek on forward-only stream")
            pos = m.pos + op[1] if kind == "k" else op[1]
            allow = kind == "s" and op[2]
            if pos < 0:
                continue
            out = attempt(w.skip, op[1]) if kind == "k" else attempt(w.bit_seek, pos, allow_unaligned=True) if allow else attempt(w.bit_seek, pos)
            if pos % 8 and not allow:
                if out.ok:
                    raise Violation("unaligned-seek", f"op {i} {op} to bit {pos} was not refused")
                world.probe("refused-seek")
            else:
                if not out.ok:
                    raise Violation("unexpected-error", f"op {i} {op} to bit {pos} {out.describe()}")
                m.pos = pos
                m.fresh = pos % 8 != 0
                if m.fresh:
                    world.probe("unaligned-seek")
        else:
            raise InvalidPlan(kind)
        world.log(i, str(op)[:200], m.pos)
        if w.bit_tell() != m.pos - base:
            raise Violation("position", f"after op {i} {str(op)[:80]} bit_tell() is {w.bit_tell()}, should be {m.pos - base}")
        if w.aligned() != (m.pos % 8 == 0):
            raise Violation("position", f"after op {i} {str(op)[:80]} at bit {m.pos} aligned() is {w.aligned()}")
    if m.pos % 8:
        world.probe("close-mid-byte")
    must(w.close, "close")
    if nc and cfg["layer"] == "buf" and not h.f.closed:  # who closes it is C11's business
        h.f.flush()
    got = stored(h)
    if got != bytes(m.d):
        k = next((j for j, (a, b) in enumerate(zip(got, m.d)) if a != b), min(len(got), len(m.d)))
        raise Violation("content", f"stream holds {len(got)} bytes, should be {len(m.d)}; first difference at byte {k}: got {got[k:k+6].hex()} want {bytes(m.d[k:k+6]).hex()}")
