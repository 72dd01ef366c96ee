"""C09: saved level files are internally consistent for an independent decoder."""
from .. import objs
from .. import refcodec as rc
from ..kernel import Violation, attempt, must
from ..spec import diff_level, xbytes
from ..streams import Store, gen_wcfg, open_stream, stored
from .roundtrip import gen_wfault

LEVEL = "exploration"
QUICK = 12000
THOROUGH = 600000
CHUNK = 60
RULE = "Each run draws a level and one to three consecutive saves of (changing) levels into the same stale storage at drawn start offsets, some of which fail half way, and decodes what a successful save left with an independent strict decoder that checks every version, size, count, offset, placement, order, high-water mark and per-segment total against the content, and compares the content with the reference model. Bytes before the start and after the end must be as before."
REAL = ["dustmaker.dfwriter", "dustmaker.bitio", "dustmaker.level/tile/prop/entity/variable", "zlib", "io.Buffered* when drawn"]
STUB = ["raw stream and storage medium", "the game (independent strict decoder)"]
ASSUME = ["per-segment totals are the ones dustmaker documents by its code at the pinned commit: filth counted per edge without spikes, enemy filth from the entity classes, surface from solid and visible edges without spikes, dustblocks by sprite"]


def gen(rng, tier):
    saves = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        cfg = gen_wcfg(rng)
        if rng.random() < 0.3:
            gen_wfault(rng, cfg)
        saves.append({"spec": objs.gen_obj(rng, "level", rng.choice([1, 2]), 0.0, 0.06), "cfg": cfg})
    n = rng.choice([0, 0, 3, 64, 1000, 5000])
    old = {"n": n, "k": rng.randrange(256)} if rng.random() < 0.6 else "\xff" * n
    return {"saves": saves, "old": old, "start": rng.choice([0, 0, rng.randint(0, n + 2), 1, 7])}


def run(plan, world):
    from dustmaker.dfwriter import DFWriter

    store = Store(xbytes(plan["old"]))
    start = plan["start"]
    last_ok = False
    for i, t in enumerate(plan["saves"]):
        s = t["spec"]
        want = objs.canon("level", s)
        lv = objs.build("level", s)
        before = store.bytes()
        h = open_stream(world, store, {**t["cfg"], "pos": start}, "w")

        def go():
            with DFWriter(h.f) as w:
                w.write_level(lv)
                return w.bit_tell()

        out = attempt(go)
        fired = h.fired()
        if h.raw is not None:
            h.raw.fl.armed = False
            attempt(h.f.close)
        world.log("save", i, out.ok, fired)
        if not out.ok:
            if not fired:
                raise Violation("unexpected-error", f"saving to healthy storage {out.describe()}")
            world.probe("failed-save")
            continue
        if t["cfg"]["layer"] == "bytesio":
            store = Store(stored(h))
        data = store.bytes()
        if i and not last_ok:
            world.probe("save-over-failed-save")
        if len(before) > start:
            world.probe("save-over-stale-data")
        last_ok = True
        try:
            got, info = rc.dec_level(data, start, True)
        except rc.FormatError as e:
            raise Violation("inconsistent", f"save {i} at byte {start} over {len(before)} bytes: {e}") from None
        d = diff_level(want, got)
        if d:
            raise Violation("content", f"save {i}: independent decoder finds {d}")
        if out.value != info["end"] * 8:
            raise Violation("end-position", f"writer stands at bit {out.value} after a level ending at byte {info['end']}")
        head = before[:start].ljust(min(start, len(data)), b"\0")
        if data[:start] != head:
            raise Violation("neighbour", f"bytes before the level at {start} changed")
        if data[info["end"] :] != before[info["end"] :]:
            raise Violation("neighbour", f"bytes after the level's end {info['end']} changed")
