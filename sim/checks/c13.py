"""C13: editing level metadata carries region data through untouched."""
from .. import objs
from .. import refcodec as rc
from .. import spec as sp
from ..kernel import InvalidPlan, Violation, attempt, must
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .c20 import gen_opt

LEVEL = "fault_enumeration"
QUICK = 12000
THOROUGH = 600000
CHUNK = 60
RULE = "Each run encodes a level in a drawn format variant with an independent encoder and applies several metadata edits in turn: read_level_ex and the region bytes through a drawn stream, change variables and thumbnail, write_level_ex with the region data as one byte string or drawn pieces, to drawn (stale, offset) storage; in some the source fails half way or delivers too little or too much. Oracle: a successful edit holds the new metadata, the same directory and the same region bytes; a failing or wrong-sized source makes the save raise, the next edit starts from the last good file, and saving the same objects again stores the same."
REAL = ["dustmaker.dfreader", "dustmaker.dfwriter", "dustmaker.bitio", "io.Buffered* when drawn"]
STUB = ["raw streams and storage medium", "the region data source", "the program that wrote the first file (independent encoder)"]


def gen(rng, tier):
    s = objs.gen_obj(rng, "level", rng.choice([1, 2]), 0.0, 0.02)
    edits = []
    for _ in range(rng.choice([1, 2, 3])):
        e = {
            "vars": sp.gen_vmap(rng, rng.choice([0, 1, 3]), 2) if rng.random() < 0.7 else None,
            "sshot": sp.gen_bytes(rng, 0.0, 50) if rng.random() < 0.6 else None,
            "r": gen_rcfg(rng), "w": gen_wcfg(rng),
            "old": rng.choice([0, 0, 10, 3000]), "start": rng.choice([0, 0, 5]),
            "pieces": None if rng.random() < 0.35 else [rng.choice([0, 1, 2, 7, 64, 1000, rng.randint(0, 300)]) for _ in range(rng.randint(1, 6))],
            "src": rng.choice(["ok", "ok", "ok", "fail", "short", "long", "empty"]), "at": rng.random(), "n": rng.choice([1, 1, 2, 30]),
            "again": rng.random() < 0.4,
        }
        edits.append(e)
    return {"spec": s, "opt": gen_opt(rng), "edits": edits}


class SourceError(Exception):
    pass


def source(blob, e, world):
    """The region data argument, and whether it is faithful."""
    k = e["src"]
    at = int(e["at"] * len(blob))
    good = True
    if k == "short":
        n = min(len(blob), e["n"])
        if n:
            blob = blob[: len(blob) - n]
            good = False
    elif k == "long":
        blob = blob + b"\x11" * max(1, e["n"])
        good = False
    elif k == "empty":
        good = not blob
        blob = b""
    if e["pieces"] is None and k != "fail":
        return blob, good

    def gen_pieces():
        i = j = 0
        sizes = e["pieces"] or [64]
        stuck = 0
        while i < len(blob):
            n = sizes[j % len(sizes)]
            j += 1
            if n == 0:
                stuck += 1
                if stuck > 4:
                    n = 13
            if k == "fail" and i + n > at:
                world.fault("source-fails")
                raise SourceError("simulated")
            yield blob[i : i + n]
            i += n
        if k == "fail":
            world.fault("source-fails")
            raise SourceError("simulated")

    if k == "fail":
        good = False
    return gen_pieces(), good


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    s = plan["spec"]
    want = objs.canon("level", s)
    opt = dict(plan["opt"])
    data = rc.enc_level(s, opt)
    want, info = rc.dec_level(data, 0)
    blob = data[info["base"] : info["end"]]
    start = 0
    for i, e in enumerate(plan["edits"]):
        if e["src"] not in ("ok", "fail", "short", "long", "empty"):
            raise InvalidPlan("src")
        rh = open_stream(world, Store(data), {**e["r"], "pos": start}, "r")

        def rd():
            r = DFReader(rh.f)
            lv, offs = r.read_level_ex()
            return lv, offs, r.read_bytes(offs[-1])

        lv, offs, got = must(rd, f"edit {i}: reading metadata and region bytes")
        if got != blob:
            raise Violation("region-read", f"edit {i}: region bytes read as {len(got)} bytes, stored {len(blob)}")
        if list(offs[:-1]) != list(info["offs"]):
            raise Violation("region-read", f"edit {i}: region directory read as {offs[:-1][:5]}, stored {info['offs'][:5]}")
        d = sp.diff_vmap(want["vars"], sp.observe_vmap(lv.variables))
        if d or bytes(lv.sshot) != want["sshot"]:
            raise Violation("metadata-read", f"edit {i}: {d or 'thumbnail differs'}")
        new = dict(want)
        if e["vars"] is not None:
            lv.variables = sp.build_vmap(e["vars"])
            new["vars"] = sp.canon_vmap(e["vars"])
        if e["sshot"] is not None:
            lv.sshot = sp.xbytes(e["sshot"])
            new["sshot"] = sp.xbytes(e["sshot"])
        src, good = source(blob, e, world)
        if not good:
            world.fault("source-" + e["src"])
        wh = open_stream(world, Store(bytes((j * 7) & 255 for j in range(e["old"]))), {**e["w"], "pos": e["start"]}, "w")

        def wr():
            with DFWriter(wh.f) as w:
                w.write_level_ex(lv, offs, src)

        out = attempt(wr)
        world.log(i, e["src"], out.ok)
        if out.ok and not good:
            raise Violation("bad-source-accepted", f"edit {i}: the save reported success although the region data source {'failed' if e['src'] == 'fail' else 'delivered a wrong amount'} ({e['src']})")
        if not out.ok:
            if good:
                raise Violation("unexpected-error", f"edit {i}: saving {out.describe()}")
            world.probe("refused")
            if not e.get("again"):
                continue
            # the same metadata and directory, this time with the region data as it is
            src, good = blob, True
            wh = open_stream(world, Store(bytes((j * 7) & 255 for j in range(e["old"]))), {**e["w"], "pos": e["start"]}, "w")
            must(wr, f"edit {i}: saving again after a refused save")
            world.probe("again-after-refusal")
        elif e.get("again") and isinstance(src, bytes):
            # saving is not consuming: a second copy is the same
            first = stored(wh)
            wh = open_stream(world, Store(bytes((j * 7) & 255 for j in range(e["old"]))), {**e["w"], "pos": e["start"]}, "w")
            must(wr, f"edit {i}: saving a second time")
            if stored(wh) != first:
                raise Violation("second-save", f"edit {i}: saving the same metadata, directory and region data again stores something else")
            world.probe("second-copy")
        data2 = stored(wh)
        try:
            got2, info2 = rc.dec_level(data2, e["start"])
        except rc.FormatError as x:
            raise Violation("inconsistent", f"edit {i}: {x}") from None
        # (what old props mean depends on the level_type variable: the region bytes decide)
        d = sp.diff_level(new, got2, skip=("tiles", "props", "entities", "bd_tiles", "bd_props"))
        if d:
            raise Violation("content", f"edit {i}: {d}")
        if data2[info2["base"] : info2["end"]] != blob:
            raise Violation("region-data", f"edit {i}: region data changed ({len(blob)} bytes, now {info2['end'] - info2['base']})")
        if info2["offs"] != info["offs"]:
            raise Violation("region-data", f"edit {i}: region directory changed from {info['offs'][:5]} to {info2['offs'][:5]}")
        data, start, want, info = data2, e["start"], new, info2
        world.probe("edited")
