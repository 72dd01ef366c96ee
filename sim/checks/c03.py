"""C03: a load never silently returns partial or invented content."""
import io

from .. import objs
from ..kernel import InvalidPlan, Violation, attempt, must, sha
from ..streams import Store, gen_rcfg, open_stream

LEVEL = "fault_enumeration"
QUICK = 9000
THOROUGH = 400000
CHUNK = 60
RULE = "Each run draws an object and a format variant, encodes it with an independent encoder, and loads it several times from streams that end early or fail at a drawn read (raw, buffered, duck-typed, in-memory, forward-only, short reads). Oracle: the load raises or returns exactly what loading the complete data returns; afterwards the complete data loads as before."
REAL = ["dustmaker.dfreader", "dustmaker.bitio", "zlib", "io.Buffered* when drawn"]
STUB = ["raw stream and storage medium", "the program that wrote the file (independent encoder)"]
KINDS = ("level", "level", "meta", "ex", "var", "replay", "replayk", "bytes", "region")


def gen_opt(rng):
    opt = {}
    if rng.random() < 0.3:
        opt["ver"] = rng.choice([43, 44, 45])
    if rng.random() < 0.4:
        opt["segver"] = rng.choice([4, 5, 6, 7, 8])
    if rng.random() < 0.3:
        opt["zlevel"] = rng.choice([0, 1, 9])
    return opt


def gen(rng, tier):
    kind = rng.choice(KINDS)
    base = "level" if kind in ("level", "meta", "ex", "bytes", "region") else "replay" if kind == "replayk" else kind
    s = objs.gen_obj(rng, base, rng.choice([1, 1, 2]), 0.01 if kind == "var" else 0.0)
    opt = gen_opt(rng) if base == "level" else {"zlevel": rng.choice([0, 6])}
    n = len(objs.encode(base, s, opt))
    trials = []
    for _ in range(10):
        cfg = gen_rcfg(rng, forward=0.2, layers=("bytesio",) if kind == "bytes" else ("raw", "buf", "duck", "bytesio"))
        if rng.random() < 0.6 or cfg["layer"] == "bytesio":
            cut = rng.choice([rng.randint(0, n), rng.randint(0, n), n - 1 - rng.randint(0, min(n - 1, 9)), rng.randint(0, min(n, 60))])
            trials.append({"cfg": cfg, "cut": cut})
        else:
            cfg["faults"] = [{"op": rng.choice(["read", "read", "read", "seek"]), "n": rng.choice([0, 1, 2, rng.randint(0, 12), rng.randint(0, 120)]), "errno": "EIO", "sticky": rng.random() < 0.3}]
            trials.append({"cfg": cfg})
    return {"kind": kind, "spec": s, "opt": opt, "trials": trials}


def do_load(kind, f, s, known):
    from dustmaker.dfreader import DFReader, read_level

    if kind == "bytes":
        return objs.frz(objs.observe("level", read_level(f.read())))
    r = DFReader(f)
    if kind == "level":
        return objs.frz(objs.observe("level", r.read_level()))
    if kind == "meta":
        lv = r.read_level(metadata_only=True)
        return objs.frz((objs.observe("var", lv.variables), lv.sshot))
    if kind == "ex":
        lv, offs = r.read_level_ex()
        data = r.read_bytes(offs[-1])
        return objs.frz((objs.observe("var", lv.variables), lv.sshot, offs, sha(data), len(data)))
    if kind == "region":
        lv, offs = r.read_level_ex()
        for _ in offs[:-1]:
            r.read_region(lv)
        return objs.frz(objs.observe("level", lv))
    if kind == "var":
        return objs.frz(objs.observe("var", r.read_var_file(s["header"].encode())))
    return objs.frz(objs.observe("replay", objs.load(r, "replay", s, known if kind == "replayk" else None)))


def run(plan, world):
    kind, s = plan["kind"], plan["spec"]
    if kind not in KINDS:
        raise InvalidPlan(kind)
    base = "level" if kind in ("level", "meta", "ex", "bytes", "region") else "replay" if kind == "replayk" else kind
    objs.canon(base, s)
    data = objs.encode(base, s, plan.get("opt"))
    n = len(data)
    want = must(do_load, "loading the complete data", kind, io.BytesIO(data), s, n)
    for i, t in enumerate(plan["trials"]):
        cfg = dict(t["cfg"])
        cut = t.get("cut")
        part = data
        if cut is not None:
            cut = max(0, min(cut, n))
            part = data[:cut]
            if cut < n:
                world.fault("truncated")
        h = open_stream(world, Store(part), cfg, "r")
        out = attempt(do_load, kind, h.f, s, n)
        fired = bool(h.raw and h.raw.fl.fired)
        world.log(i, cut, out.ok, out.describe() if not out.ok else "")
        if out.ok:
            if out.value != want:
                raise Violation("partial-content", f"{kind} of {n} bytes, trial {i} ({'cut at ' + str(cut) if cut is not None else 'read error'}) returned different content: ...{first_diff(want, out.value)}")
            world.probe("complete-despite-fault" if fired or (cut is not None and cut < n) else "no-fault-hit")
        else:
            if not fired and (cut is None or cut >= n):
                raise Violation("unexpected-error", f"{kind}, trial {i}: loading complete data {out.describe()}")
            world.probe("refused")
    again = must(do_load, "loading the complete data after failed loads", kind, io.BytesIO(data), s, n)
    if again != want:
        raise Violation("tainted", f"{kind}: the complete data loads differently after a failed load: {first_diff(want, again)}")


def first_diff(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{a[max(0, k - 30):k + 50]!r} became {b[max(0, k - 30):k + 50]!r}"
