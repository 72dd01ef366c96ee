"""C19: objects stored back to back in one stream are read back one after another."""
from .. import objs
from .. import refcodec as rc
from ..kernel import InvalidPlan, Violation, attempt, must
from ..spec import xbytes
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored

LEVEL = "exploration"
QUICK = 9000
THOROUGH = 450000
CHUNK = 60
RULE = "Each run writes a drawn sequence of levels, variable files, replays and plain bytes one after the other into one stream with stale content, at a drawn start, by one writer (in some runs going back to write some again in their places, or writing them in any order at places known beforehand) or a new writer per object, and reads them back in order through one reader or several on a drawn stream (short reads, forward-only). Oracle: an independent decoder finds each object between the positions the writer reported; the bytes outside are untouched; the reader returns each object and stands at its end."
REAL = ["dustmaker.dfwriter", "dustmaker.dfreader", "dustmaker.bitio", "io.Buffered* when drawn"]
STUB = ["raw streams and storage medium"]


def gen(rng, tier):
    items = []
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(["level", "var", "replay", "bytes"])
        if k == "bytes":
            items.append(["bytes", {"n": rng.choice([0, 1, 3, 40]), "k": rng.randrange(256)}])
        else:
            items.append([k, objs.gen_obj(rng, k, 1, dense=0.005)])
    cfg = gen_wcfg(rng)
    return {
        "any": [rng.randrange(9) for _ in items] if rng.random() < 0.3 else None, "items": items, "w": cfg, "redo": [rng.randrange(6) for _ in range(rng.choice([0, 0, 1, 3]))], "old": rng.choice([0, 0, 50, 3000]), "start": rng.choice([0, 0, 1, 9, 100]), "writers": rng.choice([1, 1, 2]),
        "reads": [{"cfg": gen_rcfg(rng, forward=0.5), "known": rng.random() < 0.4, "ex": rng.random() < 0.3, "readers": rng.choice([1, 1, 2]), "own": rng.random() < 0.5} for _ in range(2)],
    }


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    items = plan["items"]
    objects = []
    for k, s in items:
        if k == "bytes":
            objects.append(xbytes(s))
        else:
            objs.check_kind(k)
            objs.canon(k, s)
            objects.append(objs.build(k, s))
    old = bytes((i * 13 + 5) & 255 for i in range(plan["old"]))
    start, writers = plan["start"], plan["writers"]
    h = open_stream(world, Store(old), {**plan["w"], "pos": start}, "w")
    ends = []

    def put(w, k, s, o):
        if k == "bytes":
            w.write_bytes(o)
        else:
            objs.save(w, k, o, s)
        ends.append(w.bit_tell())

    def write():
        if writers == 1:
            with DFWriter(h.f) as w:
                if plan.get("any"):
                    # sizes known beforehand: each in its place, in any order
                    at = [start]
                    for (k, s), o in zip(items, objects):
                        at.append(at[-1] + len(o if k == "bytes" else objs.plain_save(k, o, s)))
                    done = {}
                    for j in sorted(range(len(items)), key=lambda j: (plan["any"][j % len(plan["any"])], j)):
                        w.bit_seek(at[j] * 8)
                        put(w, *items[j], objects[j])
                        done[j] = ends.pop()
                        world.probe("written-in-any-order")
                    ends.extend(done[j] for j in range(len(items)))
                else:
                    for (k, s), o in zip(items, objects):
                        put(w, k, s, o)
                for j in plan.get("redo") or ():
                    # again, in the place it has
                    j %= len(items)
                    w.bit_seek(ends[j - 1] if j else start * 8)
                    put(w, *items[j], objects[j])
                    at = ends.pop()
                    if at != ends[j]:
                        raise Violation("end-position", f"item {j} ({items[j][0]}) ended at bit {ends[j]}; written again in the same place it ends at {at}")
                    world.probe("written-again")
        else:
            for (k, s), o in zip(items, objects):
                with DFWriter(h.f, noclose=True) as w:
                    put(w, k, s, o)
            h.f.close()

    must(write, "writing the objects")
    data = stored(h)
    pos = start
    spans = []
    for i, ((k, s), o) in enumerate(zip(items, objects)):
        if k == "bytes":
            end = pos + len(o)
            if data[pos:end] != o:
                raise Violation("neighbour", f"item {i}: plain bytes at {pos} were disturbed")
        else:
            try:
                got, end = objs.decode(k, data, s, pos)
            except rc.FormatError as e:
                raise Violation("disturbed", f"item {i} ({k}) at byte {pos}: {e}") from None
            d = objs.diff(k, objs.canon(k, s), got)
            if d:
                raise Violation("disturbed", f"item {i} ({k}) at byte {pos}: {d}")
        if ends[i] != end * 8:
            raise Violation("end-position", f"after item {i} ({k}), which ends at byte {end}, the writer stood at bit {ends[i]}")
        spans.append((pos, end))
        pos = end
    if data[:start] != old[:start].ljust(min(start, len(data)), b"\0") or data[pos:] != old[pos:]:
        raise Violation("neighbour", f"bytes outside {start}..{pos} were changed")
    for t in plan["reads"]:
        rh = open_stream(world, Store(data), {**t["cfg"], "pos": start}, "r")
        fwd = t["cfg"].get("seekable") is False and t["cfg"]["layer"] != "bytesio"
        base = start if fwd else 0
        if fwd:
            world.probe("forward-only")
        own = bool(t.get("own")) and t["readers"] == 1
        r = DFReader(rh.f) if own else DFReader(rh.f, noclose=True)
        for i, ((k, s), o) in enumerate(zip(items, objects)):
            a, b = spans[i]

            def go():
                if k == "bytes":
                    return r.read_bytes(len(o))
                if k == "level" and t.get("ex"):
                    lv, offs = r.read_level_ex()
                    for _ in offs[:-1]:
                        r.read_region(lv)
                    return lv
                return objs.load(r, k, s, b - a if t.get("known") else None)

            got = must(go, f"reading item {i} ({k})")
            if k == "bytes":
                if got != o:
                    raise Violation("read-back", f"item {i}: plain bytes read back differently")
            else:
                d = objs.diff(k, objs.canon(k, s), objs.observe(k, got))
                if d:
                    raise Violation("read-back", f"item {i} ({k}): {d}")
            must(r.align, "align")
            if r.bit_tell() + base * 8 != b * 8:
                raise Violation("reader-position", f"after item {i} ({k}), which ends at byte {b}, the reader stands at bit {r.bit_tell() + base * 8}")
            if t["readers"] == 2:
                r.close()
                r = DFReader(rh.f, noclose=True)
                if fwd:
                    base = b
        r.close()
        world.log("read", len(items))
