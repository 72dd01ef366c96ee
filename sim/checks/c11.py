"""C11: streams are closed exactly when owned, on every path."""
import gc

from .. import objs
from .. import refcodec as rc
from ..kernel import InvalidPlan, Violation, attempt
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream

LEVEL = "fault_enumeration"
QUICK = 40000
THOROUGH = 2000000
CHUNK = 200
RULE = "Each run wraps a drawn stream in a DFReader or DFWriter with a drawn ownership (owned, noclose, released before, between or after the operations), runs operations (bits and bytes, in some runs loads and saves of whole objects), leaves by success, by an error, an interrupt or an exit request in the body, or by a failing write/flush/close of the storage, then drops the object and collects garbage. Oracle: the stream is closed exactly when owned, exactly once; otherwise it is open, usable, and what was written before close precedes what its owner writes afterwards; errors of the body propagate."
REAL = ["dustmaker.bitio", "dustmaker.dfreader", "dustmaker.dfwriter", "io.Buffered* when drawn"]
STUB = ["raw stream and storage medium"]


class BodyError(Exception):
    pass


class BodyInterrupt(KeyboardInterrupt):
    pass


class BodyExit(SystemExit):
    pass


class BodyStop(GeneratorExit):
    pass


class BodyMemory(MemoryError):
    pass


class BodyEof(EOFError):
    pass


class BodyOs(OSError):
    pass


BODY = {c.__name__: c for c in (BodyError, BodyInterrupt, BodyExit, BodyStop, BodyMemory, BodyEof, BodyOs)}


def gen(rng, tier):
    side = rng.choice(["r", "w", "w"])
    cfg = gen_rcfg(rng) if side == "r" else gen_wcfg(rng, forward=0.2)
    if side == "w" and cfg.get("seekable") is False:
        cfg.pop("rw", None)
    if cfg["layer"] != "bytesio" and rng.random() < 0.45:
        ops = ("close", "read", "seek") if side == "r" else ("write", "write", "flush", "close", "close")
        cfg["faults"] = [{"op": rng.choice(ops), "n": rng.choice([0, 0, 1, 2, 5]), "errno": rng.choice(["EIO", "ENOSPC"]), "sticky": rng.random() < 0.4}]
        if side == "w" and rng.random() < 0.2:
            cfg["cap"] = rng.randint(0, 8)
    ops = []
    for _ in range(rng.randint(0, 6)):
        k = rng.random()
        if k < 0.6:
            ops.append(["bits", rng.randint(1, 20), rng.getrandbits(20)])
        elif k < 0.8:
            ops.append(["bytes", rng.randint(0, 9)])
        elif k < 0.9:
            ops.append(["align"])
        else:
            ops.append(["flush"] if side == "w" else ["align"])
    extra = {}
    if rng.random() < 0.1:
        # whole objects instead of bits
        items = [[k, objs.gen_obj(rng, k, 1)] for k in (rng.choice(["level", "var", "replay"]) for _ in range(rng.randint(1, 3)))]
        ops = [["obj", i, rng.random() < 0.5] for i in range(len(items))]
        extra["items"] = items
        if side == "w":
            cfg.pop("seekable", None)  # saving an object takes seeking back
    return {
        **extra, "side": side, "cfg": cfg, "ops": ops, "own": rng.choice(["own", "own", "noclose", "release"]), "rel_at": rng.randint(0, len(ops)),
        "exit": rng.choice(["with", "with", "close", "error", "error"]), "err": rng.choice(sorted(BODY)), "err_at": rng.randint(0, len(ops)), "twice": rng.random() < 0.2,
        "cls": rng.choice(["DF", "Bit"]), "pos": rng.choice([0, 0, 3]),
        "explicit": rng.random() < 0.3,
    }


def run(plan, world):
    from dustmaker import bitio, dfreader, dfwriter

    side = plan["side"]
    cfg = {**plan["cfg"], "pos": plan["pos"]}
    items = plan.get("items") or []
    if items and side == "w" and cfg.get("seekable") is False:
        raise InvalidPlan("objects cannot be saved to forward-only streams")
    for k, s in items:
        objs.check_kind(k)
        objs.canon(k, s)
    spans = []
    if items and side == "r":
        old = b"\0" * plan["pos"]
        for k, s in items:
            spans.append(len(old))
            old += objs.encode(k, s)
        spans.append(len(old))
        old += b"rest"
    else:
        old = bytes((i * 37 + 11) & 255 for i in range(120)) if side == "r" else b"abc"
    h = open_stream(world, Store(old), cfg, side)
    if side == "r":
        cls = dfreader.DFReader if plan["cls"] == "DF" else bitio.BitIOReader
    else:
        cls = dfwriter.DFWriter if plan["cls"] == "DF" else bitio.BitIOWriter
    own = plan["own"]
    acc = 0
    nbits = 0
    state = {"err": None, "closing": False}

    def ops(b):
        nonlocal acc, nbits
        for i, op in enumerate(plan["ops"] + [None]):
            if own == "release" and i == min(plan["rel_at"], len(plan["ops"])):
                b.release()
            if plan["exit"] == "error" and i == min(plan["err_at"], len(plan["ops"])):
                if plan.get("err", "BodyError") not in BODY:
                    raise InvalidPlan("err")
                state["err"] = BODY[plan.get("err", "BodyError")]("body")
                world.probe("body-" + plan.get("err", "BodyError"))
                raise state["err"]
            if op is None:
                return
            k = op[0]
            if h.f.closed:
                raise Violation("closed-early", f"{side} ({plan['cfg']['layer']}): the stream is closed before the {'reader' if side == 'r' else 'writer'} is")
            if k == "obj":
                if op[1] != i or i >= len(items):
                    raise InvalidPlan("object order")
                kind, s = items[i]
                if plan["cls"] != "DF":
                    continue
                if side == "r":
                    got = objs.load(b, kind, s, spans[i + 1] - spans[i] if op[2] else None)
                    b.align()
                    d = objs.diff(kind, objs.canon(kind, s), objs.observe(kind, got))
                    if d:
                        raise Violation("content", f"object {i} ({kind}): {d}")
                else:
                    objs.save(b, kind, objs.build(kind, s), s)
                if h.f.closed:
                    raise Violation("closed-early", f"{side} ({plan['cfg']['layer']}): the stream is closed before the {'reader' if side == 'r' else 'writer'} is, by {'loading' if side == 'r' else 'saving'} a {kind}")
                world.probe("object-" + kind)
            elif k == "bits":
                if op[1] < 1:
                    raise InvalidPlan("width")
                if side == "r":
                    b.read(op[1])
                else:
                    v = op[2] & ((1 << op[1]) - 1)
                    b.write(op[1], v)
                    acc |= v << nbits
                    nbits += op[1]
            elif k == "bytes":
                if side == "r":
                    b.read_bytes(op[1])
                else:
                    v = bytes((7 * j + 1) & 255 for j in range(op[1]))
                    b.write_bytes(v)
                    acc |= int.from_bytes(v, "little") << nbits
                    nbits += 8 * len(v)
            elif k == "align":
                b.align()
                if side == "w":
                    nbits = (nbits + 7) & ~7
            elif k == "flush":
                if side != "w":
                    raise InvalidPlan("flush")
                b.flush()
                nbits = (nbits + 7) & ~7
            else:
                raise InvalidPlan(k)

    if own == "noclose":
        obj = [cls(h.f, noclose=True)]
    elif plan.get("explicit"):
        obj = [cls(h.f, noclose=False)]
    else:
        obj = [cls(h.f)]

    def go():
        if plan["exit"] == "close":
            try:
                ops(obj[0])
            finally:
                obj[0].close()
        else:
            with obj[0] as b:
                ops(b)

    out = attempt(go)
    if not out.ok and isinstance(out.exc, Violation):
        raise out.exc
    fired = h.fired()
    body = state["err"]
    world.log("left", out.ok, fired, out.describe() if not out.ok else "")
    if out.ok and body is not None:
        raise Violation("swallowed", "an error raised in the with-block was swallowed")
    if not out.ok and out.exc is not body and not fired:
        raise Violation("unexpected-error", f"leaving {side} {plan['exit']} {out.describe()}")
    if plan.get("twice"):
        attempt(obj[0].close)
    if h.raw is not None:
        h.raw.fl.armed = False

    def is_closed():
        return h.f.closed

    owned = own == "own" or (own == "release" and body is not None and min(plan["err_at"], len(plan["ops"])) < min(plan["rel_at"], len(plan["ops"])))
    if own == "release" and not out.ok and body is None:
        # whether release was reached depends on where the storage failed
        owned = None
    if owned is True:
        world.probe("owned-" + ("ok" if out.ok else "error"))
        if not is_closed() or (h.raw is not None and not h.raw.closed):
            raise Violation("left-open", f"{side}: the owned stream is still open after leaving by {'success' if out.ok else 'an error'}")
        if h.raw is not None and h.raw.closes != 1:
            raise Violation("closed-twice", f"{side}: the owned stream was closed {h.raw.closes} times")
    del out
    obj.clear()
    state.clear()
    body = None
    gc.collect()
    if owned is False:
        world.probe("given-up-" + plan["cfg"]["layer"])
        if is_closed() or (h.raw is not None and h.raw.closed):
            raise Violation("closed-foreign", f"{side} ({plan['cfg']['layer']}): the stream was closed although ownership had been given up")
        if side == "w":
            res = attempt(h.f.write, b"TAIL")
            if not res.ok:
                raise Violation("unusable", f"the stream is unusable after the writer is gone: {res.describe()}")
            if plan["cfg"]["layer"] == "buf":
                h.f.flush()
            if not fired and not items:
                written = acc.to_bytes((nbits + 7) // 8, "little") + b"TAIL"
                data = h.f.getvalue() if h.layer == "bytesio" else h.store.bytes()
                want = old[: plan["pos"]].ljust(plan["pos"], b"\0") + written
                want += old[len(want) :]
                if h.layer == "raw" and plan["cfg"].get("wchunks") not in (None, [0]):
                    want, data = want[: plan["pos"] + (nbits + 7) // 8], data[: plan["pos"] + (nbits + 7) // 8]
                if data != want:
                    raise Violation("order", f"({plan['cfg']['layer']}) the stream holds {data[-24:].hex()}, should be {want[-24:].hex()}")
        else:
            res = attempt(h.f.read, 1)
            if not res.ok:
                raise Violation("unusable", f"the stream is unusable after the reader is gone: {res.describe()}")
