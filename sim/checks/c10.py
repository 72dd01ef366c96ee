"""C10: a save never reports success when the storage lost or refused data."""
import io

from .. import objs
from .. import refcodec as rc
from ..kernel import InvalidPlan, Violation, attempt, must
from ..streams import Store, gen_wcfg, open_stream, stored
from .roundtrip import WFAULT_OPS

LEVEL = "fault_enumeration"
QUICK = 5000
THOROUGH = 600000
CHUNK = 60
RULE = "Each run saves a level, a level with opaque regions, a variable file, a replay or a bit sequence ending inside a byte several times to storage that fails a drawn write (also after taking part of it), flush, close or seek, or runs full at a drawn byte; fault positions are drawn within the number of calls the save makes. Oracle: when neither the save nor the close raises, the bytes on the storage are exactly those of an undisturbed save and no flush or close had failed."
REAL = ["dustmaker.dfwriter", "dustmaker.bitio", "io.BufferedWriter/BufferedRandom when drawn"]
STUB = ["raw stream and storage medium"]
KINDS = ("level", "levelex", "var", "replay", "bits")


def gen(rng, tier):
    kind = rng.choice(KINDS)
    base = "level" if kind == "levelex" else kind
    if kind == "bits":
        s = [[rng.randint(1, 20), rng.getrandbits(20)] for _ in range(rng.randint(1, 12))]
    else:
        s = objs.gen_obj(rng, base, 1)
    trials = []
    for _ in range(12):
        cfg = gen_wcfg(rng, layers=("raw", "buf", "duck"))
        if rng.random() < 0.5:
            cfg["wchunks"] = [rng.choice([0, 16, 64])]
        t = {"cfg": cfg, "noclose": rng.choice([0, 0, 1]), "with": rng.random() < 0.7}
        if rng.random() < 0.3:
            t["cap"] = rng.random()
        else:
            op = rng.choice(WFAULT_OPS)
            t["fault"] = {"op": op, "at": rng.random(), "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT", "EPIPE"]), "sticky": rng.random() < 0.3, "partial": rng.choice([0, 0, 1, 5])}
        trials.append(t)
    return {"kind": kind, "spec": s, "trials": trials}


def saver(kind, s):
    if kind == "bits":

        def save(w):
            for n, v in s:
                w.write(n, v & ((1 << n) - 1))

        return save
    if kind == "levelex":
        from dustmaker.dfreader import DFReader

        data = rc.enc_level(s)
        r = DFReader(io.BytesIO(data))
        lv, offs = r.read_level_ex()
        blob = r.read_bytes(offs[-1])
        return lambda w: w.write_level_ex(lv, offs, blob)
    obj = objs.build(kind, s)
    return lambda w: objs.save(w, kind, obj, s)


def once(world, save, cfg, t):
    """One save; returns (handle, outcome, faults fired while saving)."""
    from dustmaker.dfwriter import DFWriter

    h = open_stream(world, Store(), cfg, "w")
    nc = bool(t.get("noclose"))

    def go():
        if t.get("with"):
            with DFWriter(h.f, noclose=nc) as w:
                save(w)
        else:
            w = DFWriter(h.f, noclose=nc)
            try:
                save(w)
            finally:
                w.close()

    out = attempt(go)
    fired = list(h.raw.fl.fired)
    h.raw.fl.armed = False
    attempt(h.f.close if not nc or not out.ok else h.f.flush)  # the owner's own flush
    return h, out, fired


def run(plan, world):
    kind, s = plan["kind"], plan["spec"]
    if kind not in KINDS:
        raise InvalidPlan(kind)
    if kind == "bits":
        if any(n < 1 for n, _ in s):
            raise InvalidPlan("width")
    else:
        objs.canon("level" if kind == "levelex" else kind, s)
    save = saver(kind, s)
    want = None
    for i, t in enumerate(plan["trials"]):
        clean = {k: v for k, v in t["cfg"].items() if k not in ("faults", "cap")}
        h, out, _ = once(world, save, clean, t)
        if not out.ok:
            raise Violation("unexpected-error", f"{kind}: saving to healthy storage {out.describe()}")
        data = h.store.bytes()
        if want is None:
            want = data
        elif data != want:
            raise Violation("incomplete", f"{kind}: an undisturbed save left {len(data)} bytes on the storage, another one {len(want)}")
        cfg = dict(clean)
        if "cap" in t:
            cfg["cap"] = int(t["cap"] * h.raw.wrote)
        else:
            f = dict(t["fault"])
            n = max(1, h.raw.fl.counts.get(f["op"], 0))
            f["n"] = int(f.pop("at") * n)
            cfg["faults"] = [f]
        h, out, fired = once(world, save, cfg, t)
        world.log(i, out.ok, fired)
        if not fired:
            world.probe("fault-not-reached")
        if out.ok:
            if h.store.bytes() != want:
                raise Violation("false-success", f"{kind} ({t['cfg']['layer']}{', stream not owned' if t.get('noclose') else ''}): save and close reported success after {fired}, but {diffat(h.store.bytes(), want)}")
            if any(op in ("flush", "close") for op, _ in fired):
                raise Violation("false-success", f"{kind} ({t['cfg']['layer']}): save and close reported success although {fired} failed")
        else:
            world.probe("reported")


def diffat(got, want):
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return f"the storage holds {len(got)} bytes differing from the {len(want)} of an undisturbed save at byte {k}"
