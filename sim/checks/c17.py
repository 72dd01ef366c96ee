"""C17: where an editing session is saved, lost and reloaded does not change its outcome."""
import io

from .. import objs
from .. import refcodec as rc
from .. import spec as sp
from .. import xform
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .c15 import gen_tlevel
from .roundtrip import gen_wfault

LEVEL = "exploration"
QUICK = 5000
THOROUGH = 300000
CHUNK = 25
RULE = "Each run draws a level and a history of edits (tiles, props, entities, variables, thumbnail, backdrop, flips, rotations, shifts, upscaling, edge calculations, merges without remapping) and between them saves, failing saves (storage error, full disk, interrupt), reloads, metadata-only rewrites of the stored level, and crashes (possibly in the middle of an edit) after which the session resumes from the last completed save and redoes the later edits. In some, entity classes are registered, and registered anew, between loads. Oracle: the final level, saved and decoded by the independent codec, equals that of the same edits in one uninterrupted session, and equals an independent geometric model for the histories that consist of transforms only."
REAL = ["dustmaker.level/tile/prop/entity/variable", "dustmaker.dfreader/dfwriter/bitio"]
STUB = ["raw stream and storage medium", "process death (in-memory state dropped)", "interrupt delivery"]
ASSUME = ["edits use values the file format can represent exactly; filth is on layer 19", "edits address objects by ID or position, not by iteration order", "the application keeps the last completed save (saves go to a new file)"]

OPS = (
    "tile", "tile", "tile", "untile", "retile", "edge", "filth", "prop", "prop", "unprop", "moveprop", "ent", "ent", "unent", "moveent", "entvar", "var", "unvar", "name", "start", "sshot",
    "hflip", "vflip", "rotate", "translate", "upscale", "matrix", "visibility", "caps", "bdtile", "bdprop", "unbd", "dustblock", "merge", "type", "swap",
)


def gen(rng, tier):
    s = gen_tlevel(rng)
    clean(s["tiles"] + s["bd_tiles"])
    for key in ("props", "entities", "bd_props"):
        for q in s[key]:
            if q[0] > 2**31 - 1000:
                q[0] -= 5000  # leave room for new IDs
    n = rng.choice([1, 3, 6, 10, 16])
    ups = 0
    edits = []
    focus = rng.choice([OPS, OPS, ("hflip", "vflip", "rotate", "translate", "upscale"), ("tile", "edge", "filth", "visibility", "caps", "hflip", "rotate", "upscale"), ("prop", "unprop", "ent", "unent", "bdprop")])
    for _ in range(n):
        op = rng.choice(focus)
        if op == "upscale":
            ups += 1
            if ups > 2:
                op = "rotate"
        edits.append([op, rng.randrange(10**6), arg(rng, op)])
    events = []
    for i in range(n + 1):
        while rng.random() < 0.45:
            k = rng.choice(["save", "save", "save", "fail", "reload", "reload", "crash", "crash", "rewrite"])
            e = {"at": i, "do": k}
            if k == "save":
                e["w"] = gen_wcfg(rng)
            elif k == "fail":
                e["w"] = gen_wcfg(rng, layers=("raw", "buf", "duck"))
                gen_wfault(rng, e["w"])
                if rng.random() < 0.4:
                    e = {"at": i, "do": "fail", "int": rng.choice(["interrupt", "memory"]), "when": rng.random()}
            elif k == "reload":
                e["w"] = gen_wcfg(rng)
                e["r"] = gen_rcfg(rng, forward=0.0)
            elif k == "crash":
                e["r"] = gen_rcfg(rng, forward=0.0)
                if rng.random() < 0.4:
                    e["mid"] = rng.random()
            events.append(e)
    return {"late": rng.random() < 0.15, "spec": s, "edits": edits, "events": events, "loaded": rng.random() < 0.5, "opt": {"ver": 44, "segver": rng.choice([7, 8])}}


def clean(tiles):
    """Details of filth that is not there are stored only beside other filth: not judged here."""
    for t in tiles:
        for e in t[8]:
            if not e[6]:
                e[7:] = [0] * 5


def arg(rng, op):
    layer = rng.choice([19, 19, 19, 0, 20, rng.randint(0, 20)])
    if op in ("tile", "retile", "bdtile"):
        x, y = rng.randint(-3, 3), rng.randint(-3, 3)
        if rng.random() < 0.2:
            x, y = rng.choice([15, 16, -16, -17, 255, 256, -256, -257]), rng.choice([0, 15, 16, -1])
        t = sp.gen_tile(rng, layer, x, y, 90)
        clean([t])
        for side in range(4):
            if not xform.side_exists(t[3], side):
                t[8][side] = list(sp.NOEDGE)
        if rng.random() < 0.4:
            t[5], t[6], t[7] = 2, 1, 0  # a common sprite, so that neighbours join
        return t
    if op == "edge":
        e = sp.gen_edge(rng, False, 90)
        return [rng.randint(0, 3), e]
    if op == "filth":
        return [rng.randint(0, 3), rng.randint(0, 7), rng.randint(0, 1)]
    if op in ("prop", "bdprop"):
        q = sp.gen_prop(rng, rng.choice([None, None, None, rng.randint(100, 3000)]), "small")
        q[8] = rng.choice([32, 32, 28, 44])
        q[2], q[3] = float(int(q[2])), float(int(q[3]))
        return q
    if op in ("ent", "entvar"):
        e = gen_tlevel_entity(rng)
        e[0] = rng.choice([None, None, None, rng.randint(100, 3000)])
        return e
    if op in ("moveprop", "moveent"):
        return [float(rng.randint(-3000, 3000)), float(rng.randint(-3000, 3000))]
    if op == "var":
        m = [kv for kv in sp.gen_vmap(rng, 1, 2) if kv[0] != "level_type" and not kv[0].startswith("p")]
        return m or [["k", ["i", 1]]]
    if op == "sshot":
        return sp.gen_bytes(rng, 0.01, 30)
    if op == "rotate":
        return rng.choice([1, 2, 3, -1, 4, 5])
    if op in ("translate", "matrix"):
        return [rng.choice([48.0, -48.0, 768.0, -12288.0, 0.0, 96.0]), rng.choice([48.0, -48.0, 480.0, 0.0]), rng.randint(0, 3), rng.randint(0, 1)]
    if op == "upscale":
        return rng.choice([2, 2, 3])
    if op == "type":
        return rng.choice([0, 1, 6])
    if op == "start":
        return [rng.randint(1, 4), rng.randint(-5000, 5000), rng.randint(-5000, 5000)]
    if op == "merge":
        m = gen_tlevel(rng)
        for key in ("props", "entities", "bd_props"):
            for q in m[key]:
                q[0] %= 10**6
        return m
    return None


def gen_tlevel_entity(rng):
    while True:
        s = gen_tlevel(rng)
        if s["entities"]:
            return s["entities"][0]


def pick(d, k):
    return sorted(d)[k % len(d)] if d else None


def apply_edit(lv, op, k, a):
    from dustmaker.exceptions import LevelException
    from dustmaker.tile import TileSpriteSet
    from dustmaker.transform import TxMatrix

    if op in ("tile", "retile"):
        lv.tiles[(a[0], a[1], a[2])] = sp.build_tile(a)
    elif op == "untile":
        q = pick(lv.tiles, k)
        if q is not None:
            del lv.tiles[q]
    elif op == "edge":
        q = pick(lv.tiles, k)
        if q is not None and xform.side_exists(int(lv.tiles[q].shape), a[0]):
            e = lv.tiles[q].edge_data[a[0]]
            e.solid, e.visible, e.caps, e.angles = bool(a[1][0]), bool(a[1][1]), (bool(a[1][2]), bool(a[1][3])), (a[1][4], a[1][5])
    elif op == "filth":
        q = pick([x for x in lv.tiles if x[0] == 19], k)
        if q is not None and xform.side_exists(int(lv.tiles[q].shape), a[0]):
            e = lv.tiles[q].edge_data[a[0]]
            e.filth_sprite_set = TileSpriteSet(a[1])
            e.filth_spike = bool(a[2]) if a[1] else False
            e.filth_caps = (False, False)
            e.filth_angles = (0, 0)
    elif op == "dustblock":
        q = pick([x for x in lv.tiles if int(lv.tiles[x].sprite_set) in (1, 2, 3, 4, 5)], k)
        if q is not None:
            lv.tiles[q].set_dustblock()
    elif op == "swap":
        if len(lv.tiles) > 1:
            p, q = pick(lv.tiles, k), pick(lv.tiles, k // 7)
            if p[0] == q[0]:
                lv.tiles[p], lv.tiles[q] = lv.tiles[q], lv.tiles[p]
    elif op in ("prop", "bdprop"):
        w = lv if op == "prop" else lv.backdrop
        try:
            w.add_prop(a[1], a[2], a[3], sp.build_prop(a), a[0])
        except LevelException:
            pass
    elif op == "unprop":
        q = pick(lv.props, k)
        if q is not None:
            del lv.props[q]
    elif op == "moveprop":
        q = pick(lv.props, k)
        if q is not None:
            la, _, _, p = lv.props[q]
            lv.props[q] = (la, a[0], a[1], p)
    elif op == "ent":
        try:
            lv.add_entity(a[1], a[2], sp.build_entity(a), a[0])
        except LevelException:
            pass
    elif op == "unent":
        q = pick(lv.entities, k)
        if q is not None:
            del lv.entities[q]
    elif op == "moveent":
        q = pick(lv.entities, k)
        if q is not None:
            lv.entities[q] = (a[0], a[1], lv.entities[q][2])
    elif op == "entvar":
        q = pick(lv.entities, k)
        if q is not None:
            en = lv.entities[q][2]
            new = sp.build_entity(a)
            en.rotation, en.flip_x, en.visible, en.layer = new.rotation, new.flip_x, new.visible, new.layer
            if en.etype == new.etype:
                en.variables = new.variables
    elif op == "var":
        lv.variables.update(sp.build_vmap(a))
    elif op == "unvar":
        q = pick([x for x in lv.variables if x not in ("level_type",)], k)
        if q is not None:
            del lv.variables[q]
    elif op == "name":
        lv.name = b"name%d" % (k % 100)
        lv.virtual_character = bool(k & 1)
    elif op == "type":
        lv.level_type = a
    elif op == "start":
        st = lv.start_position(a[0])
        st.x, st.y = a[1], a[2]
    elif op == "sshot":
        lv.sshot = sp.xbytes(a)
    elif op == "hflip":
        lv.flip_horizontal()
    elif op == "vflip":
        lv.flip_vertical()
    elif op == "rotate":
        lv.rotate(a)
    elif op == "translate":
        lv.translate(a[0], a[1])
    elif op == "matrix":
        m = TxMatrix.ROTATE[a[2] % 4]
        if a[3]:
            m = TxMatrix.HFLIP * m
        lv.transform(m.translate(a[0], a[1]))
    elif op == "upscale":
        if len(lv.tiles) < 60:
            lv.upscale(a)
    elif op == "visibility":
        lv.calculate_edge_visibility()
    elif op == "caps":
        lv.calculate_edge_caps()
    elif op == "bdtile":
        lv.backdrop.tiles[(a[0], a[1], a[2])] = sp.build_tile(a)
    elif op == "unbd":
        if k & 1:
            lv.backdrop.tiles.clear()
        else:
            lv.backdrop.props.clear()
    elif op == "merge":
        lv.merge(sp.build_level(a), remap_ids=False)
    else:
        raise InvalidPlan(op)


PURE = {"hflip", "vflip", "rotate", "translate", "upscale", "matrix"}


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    s = plan["spec"]
    first = rc.enc_level(s, plan["opt"])

    def fresh():
        if plan.get("loaded"):
            return must(lambda: DFReader(io.BytesIO(first)).read_level(), "loading")
        lv = objs.build("level", s)
        # ID 100 is never handed out again once a level was stored: start all sessions from there
        must(lambda: lv.calculate_max_id(reset=False), "calculate_max_id")
        return lv

    def save(lv, cfg):
        h = open_stream(world, Store(), cfg, "w")

        def go():
            with DFWriter(h.f) as w:
                w.write_level(lv)

        out = attempt(go)
        fired = h.fired() if h.raw is not None else False
        data = stored(h)
        if h.raw is not None:
            h.raw.fl.armed = False
            attempt(h.f.close)
        return out, fired, data

    def load(data, cfg):
        h = open_stream(world, Store(data), cfg, "r")
        return must(lambda: DFReader(h.f).read_level(), "reloading")

    def decode(data):
        try:
            return rc.dec_level(data, 0, True)[0]
        except rc.FormatError as e:
            raise Violation("inconsistent", str(e)) from None

    edits = plan["edits"]
    # ---- the uninterrupted session
    ref = fresh()
    for n, (op, k, a) in enumerate(edits):
        out = attempt(apply_edit, ref, op, k, a)
        if not out.ok:
            if isinstance(out.exc, (KeyError, IndexError, TypeError, ValueError)) and op == "merge":
                raise InvalidPlan("edit")
            raise Violation("unexpected-error", f"edit {n} ({op}) {out.describe()}")
    out, _, data = save(ref, {"layer": "bytesio"})
    if not out.ok:
        raise InvalidPlan("the result cannot be stored: " + out.describe())
    want = decode(data)
    # ---- transforms only: an independent model knows the outcome
    if edits and all(e[0] in PURE for e in edits) and all(e[0] != "upscale" for e in edits):
        model(edits, rc.dec_level(first, 0)[0], want)
        world.probe("geometric-model")
    # ---- the eventful session
    lv = fresh()
    ckpt, ckpt_at = first, 0
    i = 0
    queue = [dict(e) for e in plan["events"]]
    steps = 0
    while True:
        ev = next((e for e in queue if e["at"] == i), None)
        if ev is not None:
            queue.remove(ev)
            do = ev["do"]
            steps += 1
            world.log(i, do)
            if do == "save":
                out, fired, data = save(lv, ev["w"])
                if not out.ok and not fired:
                    raise Violation("unexpected-error", f"saving before edit {i} {out.describe()}")
                if out.ok:
                    ckpt, ckpt_at = data, i
            elif do == "fail":
                if ev.get("int"):
                    if ev["int"] not in INTERRUPTS:
                        raise InvalidPlan("int")
                    with LineTracer() as tr:
                        attempt(lambda: objs.plain_save("level", lv, s))
                    with LineTracer(raise_at=1 + int(ev["when"] * tr.n), exc=INTERRUPTS[ev["int"]]()) as tr:
                        attempt(lambda: objs.plain_save("level", lv, s))
                    if tr.fired:
                        world.fault(ev["int"] + "@save")
                else:
                    out, fired, data = save(lv, ev["w"])
                    if out.ok:
                        ckpt, ckpt_at = data, i
            elif do == "reload":
                out, fired, data = save(lv, ev["w"])
                if not out.ok:
                    raise Violation("unexpected-error", f"saving before edit {i} {out.describe()}")
                ckpt, ckpt_at = data, i
                lv = load(data, ev["r"])
                world.fault("reload")
            elif do == "crash":
                if ev.get("mid") is not None and i < len(edits):
                    with LineTracer(raise_at=1 + int(ev["mid"] * 200), exc=INTERRUPTS["interrupt"]()):
                        attempt(apply_edit, lv, *edits[i])
                lv = load(ckpt, ev["r"])
                world.fault("crash")
                world.probe("edits-redone", i - ckpt_at)
                i = ckpt_at
            elif do == "rewrite":
                def rewrite(src):
                    r = DFReader(io.BytesIO(src))
                    meta, offs = r.read_level_ex()
                    reg = r.read_bytes(offs[-1])
                    o = io.BytesIO()
                    with DFWriter(o, noclose=True) as w:
                        w.write_level_ex(meta, offs, reg)
                    return o.getvalue()

                ckpt = must(rewrite, "metadata-only rewrite", ckpt)
            else:
                raise InvalidPlan("event")
            continue
        if i >= len(edits):
            break
        op, k, a = edits[i]
        out = attempt(apply_edit, lv, op, k, a)
        if not out.ok:
            raise Violation("unexpected-error", f"edit {i} ({op}) in the interrupted session {out.describe()}")
        i += 1
    out, _, data = save(lv, {"layer": "bytesio"})
    if not out.ok:
        raise Violation("unexpected-error", f"final save {out.describe()}")
    got = decode(data)
    d = sp.diff_level(want, got)
    if d:
        raise Violation("outcome", f"{len(edits)} edits with {steps} saves, reloads and crashes in between end differently: {d}")
    if plan.get("late"):
        late(data, world)
    # compared as objects, two loads of it are equal exactly where they are the same
    a, b = (must(lambda: DFReader(io.BytesIO(data)).read_level(), "loading the final level") for _ in range(2))
    if not (a.tiles == b.tiles and a.variables == b.variables and a.backdrop.tiles == b.backdrop.tiles):
        raise Violation("equality", "two loads of the same file are not equal")
    some = list(a.tiles.values())[:8]
    for k, t in enumerate(some):
        for u in some[:k]:
            same = sp.observe_tile(t) == sp.observe_tile(u)
            if (t == u) != same or (t != u) == same:
                raise Violation("equality", f"tiles {sp.observe_tile(t)} and {sp.observe_tile(u)} compare as {'equal' if t == u else 'different'}")
    for t, u in list(zip(a.tiles.values(), b.tiles.values()))[:8]:
        if t == u and must(lambda: hash(t), "hashing a tile") != must(lambda: hash(u), "hashing a tile"):
            raise Violation("equality", f"equal tiles {sp.observe_tile(t)} hash differently")


_LATE = [0]


def late(data, world):
    """Classes a user of the library adds, and adds anew, in the middle of a session."""
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import write_level
    from dustmaker.entity import Entity

    _LATE[0] += 1
    name = f"vsim_late_{_LATE[0]}"
    lv = must(lambda: DFReader(io.BytesIO(data)).read_level(), "loading")
    e = Entity()
    e.etype = name
    eid = lv.add_entity(1.0, 2.0, e)
    data = must(lambda: write_level(lv), "saving")
    want = Entity
    for n in range(3):
        got = must(lambda: DFReader(io.BytesIO(data)).read_level(), "loading").entities[eid][2]
        if type(got) is not want or got.etype != name:
            raise Violation("class", f"an entity of a type registered {n} times (each time by a new class) was loaded as {type(got).__name__}")
        want = type(f"Late{n}", (Entity,), {"TYPE_IDENTIFIER": name})
        mine = want()
        if mine.etype != name:
            raise Violation("class", "an entity made from a registered class is not of its type")
    world.probe("late-class", 1)


def model(edits, src, got):
    """Compose the transforms and compare with the geometric model."""
    m = [[1, 0, 0], [0, 1, 0]]

    def mul(a, b, tx=0, ty=0):
        return [[a[0][0] * b[0][0] + a[0][1] * b[1][0], a[0][0] * b[0][1] + a[0][1] * b[1][1], a[0][0] * b[0][2] + a[0][1] * b[1][2] + tx],
                [a[1][0] * b[0][0] + a[1][1] * b[1][0], a[1][0] * b[0][1] + a[1][1] * b[1][1], a[1][0] * b[0][2] + a[1][1] * b[1][2] + ty]]

    rot = [[0, -1, 0], [1, 0, 0]]
    for op, _, a in edits:
        if op == "hflip":
            m = mul([[-1, 0, 0], [0, 1, 0]], m)
        elif op == "vflip":
            m = mul([[1, 0, 0], [0, -1, 0]], m)
        elif op == "rotate":
            for _ in range(a % 4):
                m = mul(rot, m)
        else:
            if op == "matrix":
                for _ in range(a[2] % 4):
                    m = mul(rot, m)
                if a[3]:
                    m = mul([[-1, 0, 0], [0, 1, 0]], m)
            m[0][2] += a[0]
            m[1][2] += a[1]
    t = {"tx": m[0][2], "ty": m[1][2]}
    lin = [r[:2] for r in m]
    for k in range(4):
        for h in (False, True):
            c = [[1, 0, 0], [0, 1, 0]]
            for _ in range(k):
                c = mul(rot, c)
            if h:
                c = mul([[-1, 0, 0], [0, 1, 0]], c)
            if [r[:2] for r in c] == lin:
                t.update(rotate=k, hflip=h)
                d = xform.diff_level(src, got, t)
                if d:
                    raise Violation("transform", f"{len(edits)} transforms together amount to {t}, but {d}")
                return
