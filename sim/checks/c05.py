"""C05: damaged compressed blocks are never accepted as different content."""
import io
import zlib

from .. import objs
from .. import refcodec as rc
from ..kernel import InvalidPlan, Violation, attempt, must
from ..streams import Store, gen_rcfg, open_stream
from .c03 import do_load, first_diff, gen_opt

LEVEL = "fault_enumeration"
QUICK = 10000
THOROUGH = 500000
CHUNK = 60
RULE = "Each run encodes a level or replay with an independent encoder, then loses, tears or alters stored bytes inside its compressed blocks only (bit rot, zeroed or stale sectors, checksum or end marker hit, block cut at the end of the file) and loads it through drawn streams. Oracle: the load raises or returns exactly the original content. A damaged block that an independent zlib decode still accepts as valid is skipped."
REAL = ["dustmaker.dfreader", "dustmaker.bitio", "zlib"]
STUB = ["raw stream and storage medium", "the program that wrote the file (independent encoder)"]
KINDS = ("level", "region", "bytes", "replay", "replayk")


def gen(rng, tier):
    kind = rng.choice(KINDS)
    base = "replay" if kind.startswith("replay") else "level"
    s = objs.gen_obj(rng, base, rng.choice([1, 2]))
    if base == "level" and not (s["tiles"] or s["props"] or s["entities"]):
        from .. import spec as sp

        s["tiles"] = sp.gen_tiles(rng, 4, "small")
    opt = gen_opt(rng) if base == "level" else {}
    opt["zlevel"] = rng.choice([0, 0, 1, 6, 9])
    trials = []
    for _ in range(10):
        cfg = gen_rcfg(rng, forward=0.2, layers=("bytesio",) if kind == "bytes" else ("raw", "buf", "duck", "bytesio"))
        k = rng.choice(["flip", "flip", "set", "set", "zero", "tail", "tail", "cut", "stale", "swap", "head"])
        trials.append({"cfg": cfg, "op": k, "block": rng.randrange(4), "at": rng.random(), "v": rng.randrange(256), "n": rng.choice([1, 1, 2, 4, 16, 512])})
    return {"kind": kind, "spec": s, "opt": opt, "trials": trials}


def blocks_of(base, data, s, opt):
    """[(first byte, end)] of the compressed blocks."""
    if base == "replay":
        full, head = rc.enc_replay(s, opt.get("zlevel", 6))
        return [(head, len(full))]
    _, info = rc.dec_level(data, 0)
    return [(here + 17, here + rlen) for _, _, here, rlen, _, _ in info["regions"]]


def damage(data, a, b, t):
    """Returns damaged copy (only bytes in [a,b) changed, or data cut inside)."""
    d = bytearray(data)
    at = min(b - 1, a + int(t["at"] * (b - a)))
    n = max(1, t["n"])
    op = t["op"]
    if op == "flip":
        d[at] ^= 1 << (t["v"] & 7)
    elif op == "set":
        e = min(b, at + n)
        d[at:e] = bytes([(t["v"] + 7 * i) & 255 for i in range(e - at)])
    elif op == "zero":
        e = min(b, at + n)
        d[at:e] = bytes(e - at)
    elif op == "stale":
        e = min(b, at + n)
        d[at:e] = (data * 2)[at // 2 : at // 2 + e - at]
    elif op == "tail":  # the checksum
        p = max(a, b - 1 - t["v"] % 4)
        d[p] ^= 1 << (t["n"] & 7)
    elif op == "head":  # the compression header
        d[a + t["v"] % 2] ^= 1 << (t["n"] & 7)
    elif op == "swap":
        p, q = at, min(b - 1, at + n)
        d[p], d[q] = d[q], d[p]
    elif op == "cut":
        del d[at:]
    else:
        raise InvalidPlan(op)
    return bytes(d)


def still_valid(block):
    z = zlib.decompressobj()
    try:
        z.decompress(block)
    except zlib.error:
        return False
    return z.eof


def run(plan, world):
    kind, s = plan["kind"], plan["spec"]
    if kind not in KINDS:
        raise InvalidPlan(kind)
    base = "replay" if kind.startswith("replay") else "level"
    objs.canon(base, s)
    data = objs.encode(base, s, plan["opt"])
    blocks = blocks_of(base, data, s, plan["opt"])
    if not blocks:
        return
    n = len(data)
    want = must(do_load, "loading the undamaged data", kind, io.BytesIO(data), s, n)
    for i, t in enumerate(plan["trials"]):
        a, b = blocks[t["block"] % len(blocks)]
        bad = damage(data, a, b, t)
        if bad == data:
            continue
        if still_valid(bad[a:b]):
            world.probe("damage-not-detectable")
            continue
        world.fault("block-" + t["op"])
        h = open_stream(world, Store(bad), t["cfg"], "r")
        out = attempt(do_load, kind, h.f, s, n)
        world.log(i, t["op"], out.ok, out.describe() if not out.ok else "")
        if out.ok and out.value != want:
            raise Violation("accepted-damage", f"{kind}: {t['op']} damage in compressed block {a}..{b} was accepted as different content: {first_diff(want, out.value)}")
        world.probe("refused" if not out.ok else "same-content")
    again = must(do_load, "loading the undamaged data again", kind, io.BytesIO(data), s, n)
    if again != want:
        raise Violation("tainted", "the undamaged data loads differently after damaged loads")
