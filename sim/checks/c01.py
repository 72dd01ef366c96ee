"""C01: bit reads return exactly the stream's bits."""
from ..kernel import InvalidPlan, Violation, attempt
from ..spec import gen_bytes, xbytes
from ..streams import Store, gen_rcfg, open_stream

LEVEL = "exploration"
QUICK = 120000
THOROUGH = 1200000
CHUNK = 250
RULE = "Each run draws data, a stream (raw, buffered, duck-typed or in-memory; short reads, forward-only, without a position, non-zero start, early end, read and seek errors) and a sequence of reads, byte reads, skips, seeks and alignments, and compares every value and position with a bit-array model."
REAL = ["dustmaker.bitio.BitIOReader", "io.BufferedReader / io.BytesIO when drawn"]
STUB = ["raw stream and storage medium"]
ASSUME = ["streams follow the io.RawIOBase / io.BufferedIOBase contract (a read returns at least one byte unless the data has ended)"]

WIDTHS = (0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 15, 16, 16, 17, 24, 27, 31, 32, 32, 33, 63, 64, 65, 100, 128)


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 3, 8, 20, 40, 64, 200])
    if rng.random() < 0.4:
        data = "".join(chr(rng.choice([0, 255, 128, 1, rng.randrange(256)])) for _ in range(min(n, 64)))
    else:
        data = {"n": n, "k": rng.randrange(256)}
    cfg = gen_rcfg(rng, forward=0.2)
    if cfg["layer"] == "duck" and cfg.get("seekable") is False:
        cfg["bare"] = rng.random() < 0.5
    n = len(xbytes(data))
    if rng.random() < 0.3:
        cfg["pos"] = rng.randint(0, n)
    if cfg["layer"] != "bytesio":
        k = rng.random()
        if k < 0.25:
            cfg["eof"] = rng.randint(0, n)
        elif k < 0.5:
            cfg["faults"] = [{"op": "read", "n": rng.randint(0, 12), "errno": "EIO"} for _ in range(rng.randint(1, 3))]
        elif k < 0.55:
            cfg["faults"] = [{"op": "seek", "n": rng.randint(0, 5), "errno": "EIO"}]
    fwd = cfg.get("seekable") is False
    ops = []
    for _ in range(rng.randint(1, 30)):
        k = rng.random()
        if k < 0.5:
            ops.append(["r", rng.choice(WIDTHS), rng.random() < 0.5])
        elif k < 0.65:
            ops.append(["b", rng.choice([0, 1, 2, 3, 5, 9, 17, rng.randint(0, n + 2)])])
        elif k < 0.75 or fwd:
            ops.append(["a"])
        elif k < 0.85:
            ops.append(["k", rng.choice([0, 1, 3, 5, 7, 8, 9, 16, 33, -1, -3, -8, -11, rng.randint(-64, 64)])])
        else:
            ops.append(["s", rng.choice([0, 8 * (n // 2), rng.randint(0, 8 * n + 9), rng.randint(0, 8 * n)])])
    if rng.random() < 0.012:  # long stretches
        n = rng.choice([600, 2100, 4200, 9000, 9000, 70000])
        data = {"n": n, "k": rng.randrange(256)}
        for _ in range(rng.randint(1, 4)):
            ops.insert(rng.randint(0, len(ops)), rng.choice([["b", rng.choice([256, 512, 1025, 2048, 2049, 4097, 5000, 8192, 65536, n])], ["b", rng.randint(0, n)], ["r", rng.choice([129, 257, 1000, 8191, 40000]), rng.random() < 0.5]]))
        ops.insert(0, ["r", rng.choice([1, 3, 7, 8, 4]), False])
        cfg.pop("faults", None)
        if cfg.get("eof") is not None:
            cfg["eof"] = rng.choice([n, rng.randint(0, n)])
    return {"data": data, "cfg": cfg, "ops": ops}


def short(v):
    """Values of any width, for logs and messages."""
    if isinstance(v, int) and abs(v) >> 128:
        v = hex(v)
    v = repr(v)
    return v if len(v) < 120 else v[:50] + "..." + v[-50:]


def run(plan, world):
    from dustmaker.bitio import BitIOReader

    data = xbytes(plan["data"])
    cfg = plan["cfg"]
    h = open_stream(world, Store(data), cfg, "r")
    seekable = cfg.get("seekable", True) or cfg["layer"] == "bytesio"
    start = cfg.get("pos", 0)
    visible = data
    if cfg["layer"] != "bytesio" and cfg.get("eof") is not None:
        visible = data[: cfg["eof"]]
    base = 0 if seekable else start * 8  # what bit_tell()==0 means
    bits = int.from_bytes(visible, "little")
    total = len(visible) * 8
    rd = BitIOReader(h.f)
    pos = start * 8
    if rd.bit_tell() != pos - base:
        raise Violation("position", f"wrapping a stream at byte {start} reports bit {rd.bit_tell()}")

    def fired():
        return len(h.raw.fl.fired) if h.raw else 0

    for i, op in enumerate(plan["ops"]):
        f0 = fired()
        kind = op[0]
        if kind == "r":
            n, signed = op[1], op[2]
            if n < 0:
                raise InvalidPlan("width")
            if n == 0 and pos > total:
                continue  # nothing asked for where there is nothing
            out = attempt(rd.read, n, signed) if signed else attempt(rd.read, n)
            end = pos + n
            want = (bits >> pos) & ((1 << n) - 1) if end <= total else None
            if want and signed and want >> (n - 1):
                want -= 1 << n
            ok = end <= total
        elif kind == "b":
            n = op[1]
            out = attempt(rd.read_bytes, n)
            end = pos + 8 * n
            ok = end <= total or n == 0
            want = ((bits >> pos) & ((1 << 8 * n) - 1)).to_bytes(n, "little") if ok else None
            if pos % 8:
                world.probe("unaligned-bytes")
            if out.ok and not isinstance(out.value, (bytes, bytearray)):
                raise Violation("value", f"op {i} read_bytes returned {type(out.value).__name__}")
        elif kind == "a":
            out = attempt(rd.align)
            end = (pos + 7) // 8 * 8
            ok, want = True, None
        elif kind in "ks":
            if not seekable:
                raise InvalidPlan("seek on forward-only stream")
            end = pos + op[1] if kind == "k" else op[1]
            if end < 0:
                continue
            out = attempt(rd.skip, op[1]) if kind == "k" else attempt(rd.bit_seek, end)
            ok, want = True, None
            if end % 8:
                world.probe("mid-byte-seek")
        else:
            raise InvalidPlan(kind)
        failed_io = fired() > f0
        world.log(i, kind, op[1:], out.describe() if not out.ok else short(out.value)[:80])
        if out.ok:
            if not ok:
                raise Violation("invented-data", f"op {i} {op} at bit {pos} of {total} returned {short(out.value)} although the stream ends before that")
            if kind in "rb" and out.value != want:
                raise Violation("value", f"op {i} {op} at bit {pos}: got {short(out.value)}, stream holds {short(want)}")
            pos = end
            if rd.bit_tell() != pos - base:
                raise Violation("position", f"after op {i} {op} bit_tell() is {rd.bit_tell()}, should be {pos - base}")
            if rd.aligned() != (pos % 8 == 0):
                raise Violation("position", f"after op {i} {op} at bit {pos} aligned() is {rd.aligned()}")
            continue
        if ok and not failed_io:
            raise Violation("unexpected-error", f"op {i} {op} at bit {pos} of {total} {out.describe()}")
        world.probe("failed-read" if kind in "rb" else "failed-seek")
        if not seekable:
            return
        # After a failure only a seek defines the position again.
        while True:
            f0 = fired()
            out = attempt(rd.bit_seek, pos)
            if out.ok:
                break
            if fired() == f0:
                raise Violation("unexpected-error", f"seek after failed op {i} {out.describe()}")
