"""C04: loading damaged input terminates within work bounded by its size."""
import contextlib
import resource
import zlib

from .. import objs
from .. import spec as sp
from .. import refcodec as rc
from ..kernel import InvalidPlan, LineTracer, StepLimit, Violation, attempt
from ..streams import Store, gen_rcfg, open_stream
from .c03 import KINDS, do_load, gen_opt

LEVEL = "fault_enumeration"
QUICK = 8000
THOROUGH = 400000
CHUNK = 60
RULE = "Each run encodes an object, then damages it: cuts, bit flips, overwritten fields (0x00/0xff runs), removed/duplicated/moved pieces, damage inside compressed blocks re-compressed with a valid checksum, failing streams, region directories that do not belong to the regions; then loads it under a budget of executed source lines and stream operations proportional to the data size, and, when it comes out of memory, with 512 MB more than the process had."
REAL = ["dustmaker.dfreader", "dustmaker.bitio", "dustmaker.variable", "zlib"]
STUB = ["raw stream and storage medium", "the program that wrote the file (independent encoder)"]
ASSUME = ["work is counted as executed source lines of dustmaker plus calls on the stream; the budget is 60000 + 2500 per byte of file and decompressed data, at least 8 times what the densest valid input needs"]
A, B = 60000, 2500


def gen_damage(rng, n):
    k = rng.choice(["flip", "flip", "set", "set", "set", "del", "dup", "cut", "ins", "ff32", "zero32"])
    p = rng.choice([rng.randint(0, max(0, n - 1)), rng.randint(0, min(max(0, n - 1), 80))])
    if k == "flip":
        return [k, p, rng.randrange(8)]
    if k == "set":
        return [k, p, rng.choice([0, 255, 1, 128, 127, rng.randrange(256)]), rng.choice([1, 1, 2, 4, 4, 8])]
    if k in ("del", "dup", "ins"):
        return [k, p, rng.choice([1, 2, 4, rng.randint(1, 64)])]
    return [k, p]


def damage(b, ops):
    b = bytearray(b)
    for op in ops:
        k, p = op[0], min(op[1], max(0, len(b) - 1))
        if not b:
            break
        if k == "flip":
            b[p] ^= 1 << (op[2] & 7)
        elif k == "set":
            b[p : p + op[3]] = bytes([op[2] & 255]) * len(b[p : p + op[3]])
        elif k == "ff32":
            b[p : p + 4] = b"\xff" * len(b[p : p + 4])
        elif k == "zero32":
            b[p : p + 4] = b"\0" * len(b[p : p + 4])
        elif k == "del":
            del b[p : p + op[2]]
        elif k == "dup":
            b[p:p] = b[p : p + op[2]]
        elif k == "ins":
            b[p:p] = b"\x5a" * op[2]
        elif k == "cut":
            del b[p:]
        else:
            raise InvalidPlan(k)
    return bytes(b)


def gen(rng, tier):
    kind = rng.choice(KINDS)
    base = "level" if kind in ("level", "meta", "ex", "bytes", "region") else "replay" if kind == "replayk" else kind
    s = objs.gen_obj(rng, base, 1)
    opt = gen_opt(rng) if base == "level" else {"zlevel": rng.choice([0, 6])}
    n = len(objs.encode(base, s, opt))
    trials = []
    for _ in range(5):
        cfg = gen_rcfg(rng, forward=0.2, layers=("bytesio",) if kind == "bytes" else ("raw", "buf", "duck", "bytesio"))
        t = {"cfg": cfg}
        k = rng.random()
        if k < 0.45 and base != "var":
            t["inner"] = [gen_damage(rng, 200) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.4:
                t["nseg"] = rng.choice([0, 1, 2, 65535, 300])
        if k > 0.4:
            t["outer"] = [gen_damage(rng, n) for _ in range(rng.randint(1, 3))]
        if cfg["layer"] != "bytesio" and rng.random() < 0.2:
            cfg["faults"] = [{"op": "read", "n": rng.randint(0, 60), "errno": "EIO", "sticky": rng.random() < 0.5}]
        trials.append(t)
    if base == "level" and rng.random() < 0.04:
        # many directory entries, for one and the same or for no region
        sp.add_dense(rng, s, set(q[0] for k in ("props", "entities", "bd_props") for q in s[k]), "small")
        n = rng.choice([3, 50, 300])
        cfg = gen_rcfg(rng, forward=0.0, layers=("bytesio",))
        trials = [{"cfg": cfg, "dir": rng.choice([[0] * n, [rng.getrandbits(32)] * n, [rng.randint(0, 3000) for _ in range(n)]])}]
    return {"kind": kind, "spec": s, "opt": opt, "trials": trials}


def rebuild(base, data, s, t):
    """Apply inner damage (valid checksum) then outer damage; returns (bytes, decompressed size)."""
    inner = t.get("inner")
    size = 0
    if base == "replay":
        full, head = rc.enc_replay(s)
        raw = rc.enc_replay_block(s)
        if inner:
            raw = damage(raw, inner)
            data = full[:head] + zlib.compress(raw)
        size = len(raw)
    elif base == "level":
        out, info = rc.dec_level(data, 0)
        parts = [data[: info["base"]]]
        for i, (x, y, here, rlen, nseg, bd) in enumerate(info["regions"]):
            blob = data[here : here + rlen]
            raw = zlib.decompress(blob[17:])
            if inner and i == 0:
                raw = damage(raw, inner)
            z = zlib.compress(raw)
            w = rc.BitW()
            w.u(32, 17 + len(z))
            w.raw(blob[4:14])
            w.u(16, t["nseg"] if "nseg" in t and i == 0 else nseg)
            w.raw(blob[16:17])
            parts.append(w.bytes() + z)
            size += len(raw)
        if inner or "nseg" in t:
            data = b"".join(parts)
    if t.get("outer"):
        data = damage(data, t["outer"])
    return data, size


class MemoryCap:
    """Lets the process grow by CAP at most; only around loads from memory, as a
    buffered file may reserve (not use) as much as it is asked for."""

    CAP = 512 << 20

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        with open("/proc/self/statm", encoding="ascii") as f:
            now = int(f.read().split()[0]) * resource.getpagesize()
        cap = now + self.CAP
        if self.old[1] != resource.RLIM_INFINITY:
            cap = min(cap, self.old[1])
        resource.setrlimit(resource.RLIMIT_AS, (cap, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_AS, self.old)


def run(plan, world):
    kind, s = plan["kind"], plan["spec"]
    if kind not in KINDS:
        raise InvalidPlan(kind)
    base = "level" if kind in ("level", "meta", "ex", "bytes", "region") else "replay" if kind == "replayk" else kind
    objs.canon(base, s)
    data0 = objs.encode(base, s, plan.get("opt"))
    for i, t in enumerate(plan["trials"]):
        if "dir" in t:
            if base != "level" or len(t["dir"]) > 100000:
                raise InvalidPlan("directory")
            data = objs.encode(base, s, dict(plan.get("opt") or {}, dir=[o & 0xFFFFFFFF for o in t["dir"]]))
            inner = rebuild(base, data0, s, {})[1]
            world.fault("directory")
        else:
            data, inner = rebuild(base, data0, s, t)
        for d in t.get("inner", ()):
            world.fault("inner-" + d[0])
        for d in t.get("outer", ()):
            world.fault(d[0])
        limit = A + B * (len(data) + inner)
        h = open_stream(world, Store(data), t["cfg"], "r")
        ops0 = world.ops
        old = world.budget
        world.budget = ops0 + 1000 + 40 * (len(data) + inner)
        try:
            with MemoryCap() if t["cfg"]["layer"] == "bytesio" else contextlib.nullcontext():
                with LineTracer(limit=limit) as tr:
                    out = attempt(do_load, kind, h.f, s, len(data0))
        except StepLimit as e:
            raise Violation("unbounded", f"{kind} trial {i}: {len(data)} bytes of damaged input (decompressed {inner}): {e}") from None
        finally:
            world.budget = old
        if not out.ok and isinstance(out.exc, MemoryError) and t["cfg"]["layer"] == "bytesio":
            raise Violation("memory", f"{kind} trial {i}: {len(data)} bytes of damaged input (decompressed {inner}) need more than {MemoryCap.CAP >> 20} MB of memory")
        world.log(i, out.ok, out.describe() if not out.ok else "", tr.n)
        world.probe("accepted" if out.ok else "refused")
