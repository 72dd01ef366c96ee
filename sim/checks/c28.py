"""C28: failed loads and saves can be repeated on the same reader or writer."""
import copy

from .. import objs
from .. import refcodec as rc
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must
from ..spec import xbytes
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .c03 import gen_opt
from .roundtrip import expand, make_wild

LEVEL = "fault_enumeration"
QUICK = 7500
THOROUGH = 400000
CHUNK = 60
RULE = "Each run works through one or two objects on one reader and one writer. Every load (complete, metadata only, region by region, variable file, replay) and every save (of the object, of another object, of the object with a value that cannot be stored) meets a drawn sequence of transient failures first: storage errors at a drawn read, write, seek or flush, a full disk that is freed, a file that is not complete yet, and for loads interrupts and failing allocations at a drawn line; after each the same reader or writer is moved back to the start of the object and tries again. Oracle: a load that returns, returns exactly the object and stands at its end, and the last, undisturbed one returns; after the last, undisturbed save an independent strict decoder finds exactly the object between start and the writer's position, and the bytes before are untouched."
REAL = ["dustmaker.dfreader", "dustmaker.dfwriter", "dustmaker.bitio", "io.Buffered* when drawn", "zlib"]
STUB = ["raw stream and storage medium", "interrupt and allocation failure delivery", "the program that wrote the file read (independent encoder)"]
ASSUME = ["after a failure the caller moves back with bit_seek before trying again"]
HOW = {"level": ("level", "level", "meta", "ex", "region"), "var": ("var",), "replay": ("replay", "replayk")}


def gen_fault(rng, ops):
    op = rng.choice(ops)
    n = 0 if op == "flush" else rng.choice([0, 1, 2, rng.randint(0, 12), rng.randint(0, 100), rng.randint(0, 600)])
    f = {"op": op, "n": n, "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT"]), "sticky": rng.random() < 0.3}
    if op == "write" and rng.random() < 0.5:
        f["partial"] = rng.randint(0, 30)
    return f


def gen(rng, tier):
    items = []
    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(["level", "level", "var", "replay"])
        s = objs.gen_obj(rng, kind, rng.choice([1, 1, 2]))
        opt = gen_opt(rng) if kind == "level" else {"zlevel": rng.choice([0, 6])}
        size = max(1, len(objs.encode(kind, s, opt)))
        loads, saves = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = {"how": rng.choice(HOW[kind])}
            k = rng.choice(["fault", "fault", "eof", "int", "none"])
            if k == "fault":
                t["fault"] = gen_fault(rng, ("read", "read", "seek"))
            elif k == "eof":
                t["eof"] = rng.choice([rng.randint(0, size), rng.randint(0, min(size, 60))])
            elif k == "int":
                t["int"], t["when"] = rng.choice(["interrupt", "memory"]), rng.random()
            if rng.random() < 0.3:
                t["pre"] = rng.choice([1, 3, 7, 9, 32, 100])
            loads.append(t)
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = {}
            k = rng.choice(["fault", "fault", "fault", "cap", "wild", "none"])
            if k == "fault":
                t["fault"] = gen_fault(rng, ("write", "write", "write", "seek", "flush"))
            elif k == "cap":
                t["cap"] = rng.choice([0, rng.randint(0, 60), rng.randint(0, size)])
            if k == "wild":
                t["spec"] = copy.deepcopy(s)
                make_wild(rng, kind, t["spec"])
            elif rng.random() < 0.3:
                t["spec"] = objs.gen_obj(rng, kind, 1)
            if rng.random() < 0.2:
                t["pre"] = [rng.choice([1, 3, 7, 9, 20]), rng.randrange(2)]
            saves.append(t)
        items.append({"kind": kind, "spec": s, "opt": opt, "last": rng.choice(HOW[kind]), "loads": loads, "saves": saves})
    r = gen_rcfg(rng, layers=("raw", "buf", "duck"), forward=0.0)
    w = gen_wcfg(rng, layers=("raw", "buf", "duck"))
    w.pop("rw", None)
    return {"items": items, "r": r, "w": w, "pad": rng.choice([0, 0, 1, 7, 100]), "old": rng.choice([0, 0, 60, 4000])}


def do_load(r, how, s, size):
    if how == "level":
        return objs.observe("level", r.read_level())
    if how == "meta":
        lv = r.read_level(metadata_only=True)
        return objs.observe("level", lv)
    if how == "ex":
        lv, offs = r.read_level_ex()
        return objs.observe("level", lv), list(offs), r.read_bytes(offs[-1])
    if how == "region":
        lv, offs = r.read_level_ex()
        for _ in offs[:-1]:
            r.read_region(lv)
        return objs.observe("level", lv)
    if how == "var":
        return objs.observe("var", r.read_var_file(s["header"].encode()))
    return objs.observe("replay", r.read_replay(known_length=size) if how == "replayk" else r.read_replay())


def judge(kind, how, s, opt, body, out):
    """What a load that returned must have returned."""
    want, info = rc.dec_level(body, 0) if kind == "level" else (objs.canon(kind, s), None)
    if how == "ex":
        out, offs, blob = out
        if offs[:-1] != list(info["offs"]) or blob != body[info["base"] : info["end"]]:
            return "region directory or data read wrongly"
    if how in ("ex", "meta"):
        for part in ("tiles", "props", "entities", "bd_tiles", "bd_props"):
            if out[part]:
                return f"{part} without reading regions"
        want = {**want, "tiles": {}, "props": {}, "entities": {}, "bd_tiles": {}, "bd_props": {}}
    return objs.diff(kind, want, out)


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    items = plan["items"]
    bodies = []
    for it in items:
        objs.check_kind(it["kind"])
        if it["last"] not in HOW[it["kind"]] or any(t["how"] not in HOW[it["kind"]] for t in it["loads"]):
            raise InvalidPlan("how")
        objs.canon(it["kind"], it["spec"])
        bodies.append(objs.encode(it["kind"], it["spec"], it.get("opt")))
    pad = bytes((i * 11 + 3) & 255 for i in range(plan["pad"]))
    if plan["r"]["layer"] == "bytesio" or plan["w"]["layer"] == "bytesio":
        raise InvalidPlan("layer")

    # ---- loads
    data = pad + b"".join(bodies)
    h = open_stream(world, Store(data), plan["r"], "r")
    raw = h.raw
    r = DFReader(h.f, noclose=True)
    a = len(pad)
    for i, (it, body) in enumerate(zip(items, bodies)):
        kind, s = it["kind"], it["spec"]
        b = a + len(body)
        for j, t in enumerate(it["loads"] + [{"how": it["last"]}]):
            what = f"object {i} ({kind}, {t['how']}), try {j}"
            faulty = False
            tr = None
            if t.get("pre"):
                attempt(r.read, t["pre"])  # something else was read in between
            must(lambda: r.bit_seek(a * 8), f"{what}: moving back")
            if "fault" in t:
                f = dict(t["fault"])
                f["n"] += raw.fl.counts.get(f["op"], 0)
                raw.fl.set([f])
            elif "eof" in t:
                raw.eof = min(a + t["eof"], b)
                if raw.eof < b:
                    world.fault("not-complete-yet")
            elif "int" in t:
                with LineTracer() as count:
                    attempt(do_load, r, t["how"], s, len(body))
                must(lambda: r.bit_seek(a * 8), f"{what}: moving back")
                tr = LineTracer(1 + int(t["when"] * count.n), INTERRUPTS[t["int"]]("simulated"))
            raw.fl.fired = []
            if tr is not None:
                with tr:
                    out = attempt(do_load, r, t["how"], s, len(body))
                faulty = tr.fired is not None
                if faulty:
                    world.fault(t["int"])
            else:
                out = attempt(do_load, r, t["how"], s, len(body))
                faulty = bool(raw.fl.fired) or (raw.eof is not None and raw.eof < b)
            raw.fl.set([])
            raw.eof = None
            world.log("load", i, j, out.ok, faulty)
            if not out.ok:
                if not faulty:
                    raise Violation("load-again", f"{what}: loading undisturbed after failures {out.describe()}")
                world.probe("load-failed")
                continue
            d = judge(kind, t["how"], s, it.get("opt"), body, out.value)
            if d:
                raise Violation("load-content", f"{what}{' (disturbed)' if faulty else ''}: {d}")
            if not faulty and t["how"] != "meta":
                must(r.align, "align")
                if r.bit_tell() != b * 8:
                    raise Violation("reader-position", f"{what}: ends at byte {b}, the reader stands at bit {r.bit_tell()}")
                world.probe("loaded")
        a = b
    attempt(r.close)

    # ---- saves
    old = bytes((i * 13 + 5) & 255 for i in range(plan["old"]))
    start = len(pad)
    h = open_stream(world, Store(old), {**plan["w"], "pos": start}, "w")
    raw = h.raw
    raw.cap = None
    w = DFWriter(h.f)
    spans = []
    a = start
    for i, it in enumerate(items):
        kind, s = it["kind"], it["spec"]
        for j, t in enumerate(it["saves"] + [{}]):
            what = f"object {i} ({kind}), save {j}"
            ts = t.get("spec", s)
            if "vars" in ts:
                ts = {**ts, "vars": expand(ts["vars"])}
            b = attempt(objs.build, kind, ts)
            if not b.ok:
                continue
            if t.get("pre"):
                attempt(w.write, *t["pre"])  # something else was started in between
            must(lambda: w.bit_seek(a * 8), f"{what}: moving back")
            raw.fl.fired = []
            if "fault" in t:
                f = dict(t["fault"])
                f["n"] += raw.fl.counts.get(f["op"], 0)
                raw.fl.set([f])
            elif "cap" in t:
                raw.cap = raw.wrote + t["cap"]
            out = attempt(objs.save, w, kind, b.value, ts)
            faulty = bool(raw.fl.fired)
            raw.fl.set([])
            raw.cap = None
            world.log("save", i, j, out.ok, faulty)
            if not out.ok:
                if not faulty and "spec" not in t:
                    raise Violation("save-again", f"{what}: saving undisturbed after failures {out.describe()}")
                world.probe("save-failed" if faulty else "save-refused")
                continue
            if "fault" not in t and "cap" not in t and "spec" not in t:
                world.probe("saved")
        e = w.bit_tell()
        if e % 8:
            raise Violation("writer-position", f"after object {i} ({kind}) the writer stands at bit {e}")
        spans.append((a, e // 8))
        a = e // 8
    must(w.close, "closing the writer")
    data = stored(h)
    if data[:start] != old[:start].ljust(start, b"\0"):
        raise Violation("neighbour", f"bytes before the start at {start} were changed")
    for i, (it, (a, b)) in enumerate(zip(items, spans)):
        kind, s = it["kind"], it["spec"]
        try:
            got, end = objs.decode(kind, data[:b], s, a)
        except rc.FormatError as e:
            raise Violation("disturbed", f"object {i} ({kind}) at byte {a} after repeated saves: {e}") from None
        d = objs.diff(kind, objs.canon(kind, s), got)
        if d:
            raise Violation("disturbed", f"object {i} ({kind}) at byte {a} after repeated saves: {d}")
        if end != b:
            raise Violation("writer-position", f"object {i} ({kind}) ends at byte {end}, the writer stood at byte {b}")
