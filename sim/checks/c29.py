"""C29: regions can be read one by one, in any order, again and again, or left out."""
from .. import objs
from .. import refcodec as rc
from .. import spec as sp
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .c20 import gen_opt

LEVEL = "fault_enumeration"
QUICK = 9000
THOROUGH = 400000
CHUNK = 60
RULE = "Each run stores a level of several regions in a drawn format variant with an independent encoder, reads its metadata with read_level_ex and then regions by read_region at the offsets it returned: in a drawn order, some twice, some never, some while the storage fails or the process is interrupted or out of memory at a drawn line (and again later), into a level that may already hold other content; or front to back on a forward-only stream, skipping regions as bytes. Then a drawn selection of regions is written with write_level_ex under recomputed offsets. Oracle: after every step the level holds exactly the content of the regions read so far (last read wins) plus what it held, new IDs are free, the reader stands at the next region; the written selection holds exactly those regions."
REAL = ["dustmaker.dfreader", "dustmaker.dfwriter", "dustmaker.bitio", "dustmaker.level", "zlib", "io.Buffered* when drawn"]
STUB = ["raw stream and storage medium", "interrupt and allocation failure delivery", "the program that wrote the file (independent encoder)"]
ASSUME = ["an ID occurs once in a file", "after a failed read the caller moves back with bit_seek before trying again"]
PARTS = ("tiles", "props", "entities", "bd_tiles", "bd_props")


def gen(rng, tier):
    s = objs.gen_obj(rng, "level", 2, dense=0.01)
    n = 0
    for k in range(7):
        for part in PARTS:
            s[part] = uniq(part, s[part])
        n = len(rc.split_regions(s))
        if n > 2 or k == 6 or rng.random() < 0.2:
            break
        more = objs.gen_obj(rng, "level", 2)
        used = {x[0] for p in ("props", "entities", "bd_props") for x in s[p]}
        for part in PARTS:
            for x in more[part]:
                if part.endswith("tiles"):
                    s[part].append(x)
                elif x[0] not in used:
                    used.add(x[0])
                    s[part].append(x)
        if rng.random() < 0.5:
            t = rng.randint(-2, 2) * 256
            s["tiles"] += [sp.gen_tile(rng, 19, t + rng.randrange(256), rng.randint(-2, 2) * 256 + rng.randrange(256)) for _ in range(2)]
    ops = []
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < 0.3:
        order = [i for i in order if rng.random() < 0.6]
    order += [rng.choice(range(n)) for _ in range(rng.choice([0, 0, 1, 3]))] if n else []
    for i in order:
        op = {"i": i}
        k = rng.random()
        if k < 0.2:
            op["fault"] = {"op": rng.choice(["read", "read", "seek"]), "n": rng.choice([0, 0, 1, rng.randint(0, 20)]), "errno": "EIO", "sticky": rng.random() < 0.2}
        elif k < 0.35:
            op["int"], op["when"] = rng.choice(["interrupt", "memory"]), rng.random()
        elif k < 0.45:
            op["cut"] = rng.random()
        elif k < 0.5:
            op["meta"] = True
        ops.append(op)
        if k < 0.45 and rng.random() < 0.7:
            ops.append({"i": i})
    have = None
    if rng.random() < 0.3:
        have = {p: v for p, v in objs.gen_obj(rng, "level", 1).items() if p in PARTS}
        for part in PARTS:
            have[part] = [x for x in uniq(part, have[part]) if part.endswith("tiles") or 0 < x[0] < 2**31]
    sel = [i for i in range(n) if rng.random() < 0.5]
    fwd = rng.random() < 0.25
    r = gen_rcfg(rng, layers=("raw", "buf", "duck"), forward=1.0 if fwd else 0.0)
    opt = gen_opt(rng)
    if have:
        opt.pop("stray_dust", None)  # what filth without a tile does to a tile from elsewhere is not laid down
    return {"spec": s, "opt": opt, "ops": ops, "have": have, "sel": sel, "fwd": fwd, "r": r, "w": gen_wcfg(rng), "pad": rng.choice([0, 0, 3, 50]), "pieces": rng.random() < 0.6, "pre": rng.random() < 0.4}


def uniq(part, xs):
    out = {}
    for x in xs:
        out[tuple(x[:3]) if part.endswith("tiles") else x[0]] = x
    return list(out.values())


def sub_spec(s, reg):
    out = {**s, **{p: [] for p in PARTS}}
    for seg in reg["segs"].values():
        for p in ("tiles", "props", "entities"):
            out[p] = out[p] + seg[p]
    if reg["bd"] is not None:
        out["bd_tiles"] = reg["bd"]["tiles"]
        out["bd_props"] = reg["bd"]["props"]
    return out


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    s, opt = plan["spec"], dict(plan["opt"])
    objs.canon("level", s)
    ids = [x[0] for p in ("props", "bd_props") for x in s[p]]
    eids = [x[0] for x in s["entities"]]
    if plan["r"]["layer"] == "bytesio" or any(len(uniq(p, s[p])) != len(s[p]) for p in PARTS):
        raise InvalidPlan("repeated")
    body = rc.enc_level(s, opt)
    full, info = rc.dec_level(body, 0)
    pad = bytes((i * 11 + 3) & 255 for i in range(plan["pad"]))
    data = pad + body
    n = len(info["regions"])
    base = len(pad) + info["base"]
    offs0 = list(info["offs"]) + [info["end"] - info["base"]]
    # content by region, as the independent decoder sees it
    regs = rc.split_regions(s)
    content = []
    for x, y, _, _, _, _ in info["regions"]:
        sub = sub_spec(s, regs[(x, y)])
        keys = {p: {tuple(t[:3]) if p.endswith("tiles") else t[0] for t in sub[p]} for p in PARTS}
        content.append({p: {k: v for k, v in full[p].items() if k in keys[p]} for p in PARTS})
    if any(len(full[p]) != sum(len(c[p]) for c in content) for p in PARTS):
        raise InvalidPlan("split")

    fwd = bool(plan["fwd"])
    if fwd != (plan["r"].get("seekable") is False):
        raise InvalidPlan("fwd")
    h = open_stream(world, Store(data), {**plan["r"], "pos": len(pad)}, "r")
    raw = h.raw
    raw.fl.set([])
    r = DFReader(h.f, noclose=True)
    at0 = 0 if fwd else len(pad)
    lv, offs = must(r.read_level_ex, "read_level_ex")
    if list(offs) != offs0:
        raise Violation("offsets", f"read_level_ex gave the offsets {offs[:6]}, they are {offs0[:6]}")
    here = r.bit_tell()
    if here != (at0 + info["base"]) * 8:
        raise Violation("offsets", f"after read_level_ex the reader stands at bit {here}, regions start at byte {at0 + info['base']}")
    base = here // 8
    model = {p: {} for p in PARTS}
    have = plan.get("have")
    if have and plan["opt"].get("stray_dust"):
        raise InvalidPlan("filth without a tile, and tiles from elsewhere")
    if have:
        hs = {**s, **have, "vars": [], "sshot": ""}
        for p in ("props", "entities", "bd_props"):
            if any(not 0 < x[0] < 2**31 for x in hs[p]):
                raise InvalidPlan("id")
        other = objs.build("level", hs)
        lv.tiles.update(other.tiles)
        lv.backdrop.tiles.update(other.backdrop.tiles)
        for i, (x, y, e) in other.entities.items():
            must(lambda: lv.add_entity(x, y, e, i), "add_entity")
        for i, (layer, x, y, q) in other.props.items():
            must(lambda: lv.add_prop(layer, x, y, q, i), "add_prop")
        for i, (layer, x, y, q) in other.backdrop.props.items():
            must(lambda: lv.backdrop.add_prop(layer, x, y, q, i), "add_prop")
        model = {p: dict(v) for p, v in objs.observe("level", other).items() if p in PARTS}
    dirty = set()  # regions of which a read failed half way

    def check(where):
        got = objs.observe("level", lv)
        skip = {p: {k for i in dirty for k in content[i][p]} for p in PARTS}
        a = {**full, **{p: {k: v for k, v in model[p].items() if k not in skip[p]} for p in PARTS}}
        b = {**got, **{p: {k: v for k, v in got[p].items() if k not in skip[p]} for p in PARTS}}
        d = sp.diff_level(a, b)
        if d:
            raise Violation("content", f"{where}: {d}")

    def ends(i, where):
        if r.bit_tell() != (base + offs0[i + 1]) * 8:
            raise Violation("region-end", f"{where}: region {i} ends at byte {base + offs0[i + 1]}, the reader stands at bit {r.bit_tell()}")

    def took(i):
        dirty.discard(i)
        for p in PARTS:
            model[p].update(content[i][p])

    check("after read_level_ex")
    if fwd:
        want = {op["i"] for op in plan["ops"]}
        for i in range(n):
            if i in want:
                must(lambda: r.read_region(lv), f"reading region {i} of {n} front to back")
                took(i)
            else:
                got = must(lambda: r.read_bytes(offs[i + 1] - offs[i]), f"skipping region {i}")
                if got != body[info["base"] + offs0[i] : info["base"] + offs0[i + 1]]:
                    raise Violation("region-bytes", f"bytes of region {i} read wrongly")
                world.probe("skipped")
            ends(i, "front to back")
            check(f"after region {i}, front to back")
            world.log("fwd", i)
    else:
        seen = set()
        for j, op in enumerate(plan["ops"]):
            i = op["i"]
            if not 0 <= i < n:
                continue
            where = f"step {j}, region {i} of {n}"
            if op.get("meta"):
                # the metadata is looked at again in between
                must(lambda: r.bit_seek(len(pad) * 8), "seek")
                lv2 = must(lambda: r.read_level(metadata_only=True), f"{where}: reading the metadata again")
                d = sp.diff_vmap(full["vars"], sp.observe_vmap(lv2.variables))
                if d or bytes(lv2.sshot) != full["sshot"] or lv2.tiles or lv2.entities or lv2.props:
                    raise Violation("content", f"{where}: metadata read again: {d or 'differs'}")
            must(lambda: r.bit_seek((base + offs[i]) * 8), "seek")
            faulty = False
            raw.fl.fired = []
            if "fault" in op:
                f = dict(op["fault"])
                f["n"] += raw.fl.counts.get(f["op"], 0)
                raw.fl.set([f])
            if "cut" in op:
                raw.eof = len(data) - len(body) + info["base"] + offs0[i] + int(op["cut"] * (offs0[i + 1] - offs0[i]))
                world.fault("not-complete-yet")
            if "int" in op:
                scratch = type(lv)()
                scratch.variables = lv.variables
                with LineTracer() as count:
                    attempt(r.read_region, scratch)
                must(lambda: r.bit_seek((base + offs[i]) * 8), "seek")
                with LineTracer(1 + int(op["when"] * count.n), INTERRUPTS[op["int"]]("simulated")) as tr:
                    out = attempt(r.read_region, lv)
                faulty = tr.fired is not None
                if faulty:
                    world.fault(op["int"])
            else:
                out = attempt(r.read_region, lv)
                faulty = bool(raw.fl.fired) or "cut" in op
            raw.fl.set([])
            raw.eof = None
            world.log("region", i, out.ok, faulty)
            if out.ok:
                took(i)
                if not faulty:
                    ends(i, where)
                    world.probe("again" if i in seen else "read")
                    seen.add(i)
            else:
                if not faulty:
                    raise Violation("unexpected-error", f"{where}: reading undisturbed {out.describe()}")
                dirty.add(i)
                world.probe("read-failed")
            check(where + ("" if out.ok else " (failed)"))
    nid = must(lambda: lv.add_entity(0.0, 0.0, make_entity()), "add_entity")
    honest = info["uid"] > max(ids + eids, default=0)
    if honest and (nid in ids or nid in eids) or nid in model["entities"] or nid in model["props"] or nid in model["bd_props"]:
        raise Violation("next-id", f"new entity got the ID {nid} that is in use")
    attempt(r.close)

    # ---- a selection of regions
    sel = [i for i in plan["sel"] if 0 <= i < n]
    if sel != sorted(set(sel)):
        raise InvalidPlan("sel")
    r = DFReader(open_stream(world, Store(body), {k: v for k, v in plan["r"].items() if k != "seekable"}, "r").f)
    lv, offs = must(r.read_level_ex, "read_level_ex")
    blob = must(lambda: r.read_bytes(offs[-1]), "read_bytes")
    parts = [blob[offs[i] : offs[i + 1]] for i in sel]
    new = [0]
    for p in parts:
        new.append(new[-1] + len(p))
    if plan.get("pre") and n:
        # the level may hold regions already; what is passed along counts
        r2 = DFReader(open_stream(world, Store(body), {"layer": "bytesio"}, "r").f)
        must(r2.read_level_ex, "read_level_ex")
        must(lambda: r2.read_region(lv), "read_region")
        world.probe("selection-with-content")
    wh = open_stream(world, Store(), plan["w"], "w")

    def wr():
        with DFWriter(wh.f) as w:
            w.write_level_ex(lv, new, iter(parts) if plan["pieces"] else b"".join(parts))

    must(wr, f"writing regions {sel} of {n}")
    try:
        got, info2 = rc.dec_level(stored(wh))
    except rc.FormatError as e:
        raise Violation("selection", f"regions {sel} of {n}: {e}") from None
    d = sp.diff_level({**full, **{p: {k: v for i in sel for k, v in content[i][p].items()} for p in PARTS}}, got)
    if d or info2["offs"] != new[:-1] or info2["end"] != len(stored(wh)):
        raise Violation("selection", f"regions {sel} of {n}: {d or 'directory or size wrong'}")
    if honest and info2["uid"] <= max(ids + eids, default=0):
        raise Violation("selection", f"regions {sel} of {n}: ID high-water mark {info2['uid']} went back")
    world.log("selection", len(sel))


def make_entity():
    from dustmaker.entity import Entity

    return Entity()
