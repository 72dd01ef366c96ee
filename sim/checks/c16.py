"""C16: independent readers, writers and objects do not influence each other."""
import copy
import io

from .. import objs
from .. import spec as sp
from ..kernel import InvalidPlan, Violation, attempt, must, sha
from ..sched import Sched
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored

LEVEL = "exploration"
QUICK = 2400
THOROUGH = 200000
CHUNK = 15
RULE = "Two modes. Threads: 2 to 4 sessions (load, save, save of one shared object, metadata rewrite with a lazily read region source, load and save again), some with failing storage, run in real threads of which only one runs at a time; a drawn schedule preempts after a drawn number of executed dustmaker lines or bytecodes. Oracle: each session ends exactly as alone (same bytes, same loaded content, same kind of failure) and successful ones agree with the reference model. Mutation: several objects are loaded (from separate streams, or back to back from one) or built, then a drawn history of changes through the public interface is applied to some of them; oracle: every other object, its observable content and saved bytes, stays what it was, and objects loaded afterwards are as stored."
REAL = ["dustmaker.bitio/dfreader/dfwriter/level/tile/prop/entity/variable/replay", "Python io and threading (real threads)"]
STUB = ["thread scheduler (one thread at a time, drawn preemption)", "raw stream and storage medium"]
ASSUME = ["preemption happens between executed lines or bytecodes of dustmaker; code outside dustmaker runs without preemption"]


# ------------------------------------------------------------------------- plans
def gen_session(rng, nobj):
    k = rng.choice(["load", "load", "save", "save", "copy", "rewrite"])
    ses = {"do": k, "obj": rng.randrange(nobj)}
    if k in ("load", "copy", "rewrite"):
        ses["r"] = gen_rcfg(rng, forward=0.0)
        if k == "load" and rng.random() < 0.15:
            ses["cut"] = rng.random()
    if k in ("save", "copy", "rewrite"):
        ses["w"] = gen_wcfg(rng)
        if rng.random() < 0.2 and ses["w"]["layer"] != "bytesio":
            ses["w"]["cap"] = rng.randint(0, 300)
    if k == "rewrite":
        ses["chunk"] = rng.choice([1, 7, 50, 1000])
    return ses


def gen(rng, tier):
    p = {"mode": rng.choice(["threads", "threads", "mutate"])}
    n = rng.choice([1, 2, 2, 3])
    p["objs"] = []
    kinds = rng.choice([("level",), ("level",), ("var",), ("replay",), ("level", "var", "replay")])
    for _ in range(n):
        kind = rng.choice(kinds)
        p["objs"].append([kind, objs.gen_obj(rng, kind, 1)])
    if rng.random() < 0.3 and n > 1:
        p["objs"][1] = copy.deepcopy(p["objs"][0])  # the same content twice
    if p["mode"] == "threads":
        p["ses"] = [gen_session(rng, n) for _ in range(rng.choice([2, 2, 3, 4]))]
        p["op"] = rng.random() < 0.2
        top = rng.choice([3, 20, 100, 400, 1500]) * (4 if p["op"] else 1)
        p["sched"] = [[rng.randrange(4), rng.randint(1, top)] for _ in range(rng.choice([3, 10, 40, 120]))]
    else:
        p["how"] = rng.choice(["streams", "streams", "one", "built"])
        p["edits"] = [[rng.randrange(n + 1), rng.choice(EDITS), rng.randrange(10**6)] for _ in range(rng.choice([1, 2, 4, 8, 12]))]
        p["copies"] = 2 if rng.random() < 0.6 else 1
        if rng.random() < 0.4:  # the same kind of change to one object after the other
            e = rng.choice(EDITS)
            for j in range(2 * n):
                p["edits"].append([j, e, rng.randrange(10**6)])
    return p


# ----------------------------------------------------------------------- sessions
def session(ses, plan, world, shared):
    """-> function to run (in whatever thread); returns a comparable result."""
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    kind, s = plan["objs"][ses["obj"] % len(plan["objs"])]
    do = ses["do"]
    if do == "rewrite" and kind != "level":
        do = "copy"
    data = objs.encode(kind, s)
    if ses.get("cut") is not None:
        data = data[: int(ses["cut"] * len(data))]
    known = len(data) if kind == "replay" else None
    wh = open_stream(world, Store(), ses["w"], "w") if "w" in ses else None
    rh = open_stream(world, Store(data), ses["r"], "r") if "r" in ses else None

    def go():
        if do == "load":
            with DFReader(rh.f) as r:
                return objs.frz(objs.observe(kind, objs.load(r, kind, s, known)))
        if do == "save":
            with DFWriter(wh.f) as w:
                objs.save(w, kind, shared[ses["obj"] % len(plan["objs"])], s)
            return sha(stored(wh))
        if do == "copy":
            with DFReader(rh.f) as r, DFWriter(wh.f) as w:
                objs.save(w, kind, objs.load(r, kind, s, known), s)
            return sha(stored(wh))
        if do == "rewrite":
            with DFReader(rh.f) as r, DFWriter(wh.f) as w:
                lv, offs = r.read_level_ex()

                def source():
                    left = offs[-1]
                    while left:
                        n = min(left, ses["chunk"])
                        yield r.read_bytes(n)
                        left -= n

                w.write_level_ex(lv, offs, source())
            return sha(stored(wh))
        raise InvalidPlan("do")

    def finish(out):
        """Result, as data."""
        left = stored(wh) if wh is not None else b""
        for h in (rh, wh):
            if h is not None and h.raw is not None:
                h.raw.fl.armed = False
                attempt(h.f.close)
        if out.ok:
            return ("ok", out.value)
        return ("failed", type(out.exc).__name__, sha(left) if wh is not None else None)

    return go, finish, (do, kind, s, wh)


def threads(plan, world):
    if not isinstance(plan.get("ses"), list) or not plan["ses"]:
        raise InvalidPlan("sessions")
    shared = [objs.build(k, s) for k, s in plan["objs"]]
    before = [objs.frz(objs.observe(k, o)) for (k, _), o in zip(plan["objs"], shared)]
    alone = []
    for i, ses in enumerate(plan["ses"]):
        go, finish, what = session(ses, plan, world, shared)
        out = attempt(go)
        res = finish(out)
        alone.append(res)
        verify_alone(i, what, res, ses)
    sched = Sched(world, plan["sched"], plan.get("op"))
    fins = []
    for ses in plan["ses"]:
        go, finish, what = session(ses, plan, world, shared)
        fins.append((finish, what))
        sched.add(go)
    outs = sched.run()
    world.probe("switches", sched.switches)
    world.probe("preempted", sched.switches > len(plan["ses"]))
    for i, (out, (finish, what)) in enumerate(zip(outs, fins)):
        res = finish(out)
        world.log("done", i, res[0])
        if res[0] == "failed":
            world.fault("failed-session")
        if res != alone[i]:
            raise Violation("interference", f"session {i} ({what[0]} of a {what[1]}) alone: {str(alone[i])[:120]}; interleaved with {len(outs) - 1} others: {str(res)[:120]} {out.describe() if not out.ok else ''}")
    for j, o in enumerate(shared):
        kind = plan["objs"][j][0]
        if objs.frz(objs.observe(kind, o)) != before[j]:
            raise Violation("changed", f"object {j} ({kind}) was changed by overlapping saves")


def verify_alone(i, what, res, ses):
    do, kind, s, wh = what
    if res[0] == "failed":
        if ses.get("cut") is None and not (ses.get("w") or {}).get("cap", None) is not None:
            raise Violation("unexpected-error", f"session {i} ({do} of a {kind}) alone fails: {res[1]}")
        return
    if ses.get("cut") is not None:
        return
    want = objs.canon(kind, s)
    if wh is not None:
        got, _ = objs.decode(kind, stored(wh), s, 0, False)
        d = objs.diff(kind, want, got)
        if d:
            raise Violation("alone", f"session {i} ({do} of a {kind}): {d}")


# ----------------------------------------------------------------------- mutation
EDITS = (
    "vars-set", "vars-deep", "vars-clear", "tile-attr", "tile-edge", "tile-add", "tile-del", "prop-attr", "prop-add", "ent-attr", "ent-vars", "ent-arr", "ent-add", "transform", "upscale",
    "edges", "remap", "merge", "backdrop", "sshot", "props", "replay-intents", "replay-frames", "replay-entity", "replay-attr", "fresh",
)


def mutate_var(v, k):
    """Change a variable in place, as deep as possible."""
    from dustmaker import variable as V

    if isinstance(v, V.VariableArray):
        for e in v.value[1]:
            mutate_var(e, k)
        if v.value[1]:
            v.value[1].append(copy.deepcopy(v.value[1][0]))
        elif v.element_type is V.VariableInt:
            v.value[1].append(V.VariableInt(k % 1000))
        elif v.element_type is V.VariableArray:
            v.value[1].append(V.VariableArray(V.VariableInt, []))
        else:
            v.value[1].append(v.element_type())
    elif isinstance(v, V.VariableStruct):
        for e in v.value.values():
            mutate_var(e, k)
        v.value["mut"] = V.VariableInt(k % 1000)
    elif isinstance(v, V.VariableString):
        v.value = b"mut%d" % (k % 1000)
    elif isinstance(v, V.VariableBool):
        v.value = not v.value
    elif isinstance(v, V.VariableVec2):
        v.value = (float(k % 100), -1.0)
    elif isinstance(v, V.VariableFloat):
        v.value = v.value + 1.0
    else:
        v.value = (v.value + 1) % 1000


def mutate_map(m, k):
    from dustmaker.variable import VariableInt

    for v in list(m.values()):
        mutate_var(v, k)
    m["new%d" % (k % 7)] = VariableInt(k % 1000)


def edit(kind, o, name, k, others):
    """Apply one change through the public interface; True if it did something."""
    from dustmaker import entity as E
    from dustmaker import variable as V
    from dustmaker.level import Level
    from dustmaker.prop import Prop
    from dustmaker.tile import Tile, TileShape, TileSide, TileSpriteSet
    from dustmaker.transform import TxMatrix

    def pick(d):
        return d[sorted(d)[k % len(d)]] if d else None

    if kind == "var":
        if name == "vars-clear":
            o.clear()
        elif name == "vars-set":
            o["x%d" % (k % 5)] = V.VariableUInt(k % 1000)
        else:
            mutate_map(o, k)
        return True
    if kind == "replay":
        from dustmaker import replay as R

        if name in ("replay-intents", "transform", "tile-attr", "tile-edge", "ent-attr"):
            for pl in o.players:
                for vals in pl.intents.values():
                    vals.append(vals[-1] if vals else 0)
                    vals[0] = vals[-1]
                    vals.insert(0, 0)
                pl.intents[R.IntentStream.JUMP] = [1, 2, 0]
                pl.character = R.Character((int(pl.character) + 1) % 8)
        elif name in ("replay-frames", "ent-arr", "ent-vars", "prop-attr"):
            for ent in o.entities.values():
                for fr in ent.frames:
                    fr.x_pos += 1
                    fr.frame += 1
                ent.frames.append(R.EntityFrame(frame=9, x_pos=1.0, y_pos=1.0, x_speed=0.0, y_speed=0.0))
        elif name in ("replay-entity", "merge", "upscale"):
            o.entities[k % 50] = R.EntityData()
            o.entities[k % 50].frames.append(R.EntityFrame(frame=1, x_pos=1.0, y_pos=1.0, x_speed=0.0, y_speed=0.0))
        elif name in ("fresh", "vars-clear"):
            n = R.Replay()
            n.players.append(R.PlayerData())
            n.players[0].intents[R.IntentStream.X] = [1]
            n.entities[3] = R.EntityData()
            o.players.append(R.PlayerData())
            o.players[-1].intents[R.IntentStream.X] = [1, 0]
        else:
            o.username = b"mut"
            o.level = b"mut%d" % (k % 50)
            o.frames += 1
            if name in ("sshot", "tile-del"):
                o.players.clear()
        return True
    lv = o if k % 5 else o.backdrop
    if name == "vars-set":
        o.variables["x%d" % (k % 5)] = V.VariableUInt(k % 1000)
        o.name = b"mut"
    elif name == "vars-deep":
        mutate_map(o.variables, k)
    elif name == "vars-clear":
        o.variables.clear()
    elif name == "tile-attr":
        for t in lv.tiles.values():
            t.shape = TileShape.HALF_C
            t.sprite_tile = (t.sprite_tile + 1) & 255
            t.sprite_set = TileSpriteSet.CITY
            t.tile_flags ^= 1
    elif name == "tile-edge":
        for t in lv.tiles.values():
            for e in t.edge_data:
                e.solid = not e.solid
                e.angles = (5, -5)
                e.filth_sprite_set = TileSpriteSet.FOREST
            t.edge_data[TileSide.LEFT], t.edge_data[TileSide.TOP] = t.edge_data[TileSide.TOP], t.edge_data[TileSide.LEFT]
    elif name == "tile-add":
        t = Tile(TileShape.BIG_1)
        t.edge_data[TileSide.TOP].visible = True
        lv.tiles[(k % 20, k % 300, 7)] = t
    elif name == "tile-del":
        lv.tiles.clear()
    elif name == "prop-attr":
        for key, (la, x, y, pr) in list(lv.props.items()):
            pr.rotation = (pr.rotation + 77) & 0xFFFF
            pr.palette ^= 1
            lv.props[key] = (la, x + 1, y, pr)
    elif name == "prop-add":
        lv.add_prop(3, 1.0, 2.0, Prop(0, 0, False, False, 1.0, 1, 2, 3, 0))
    elif name == "ent-attr":
        for key, (x, y, en) in list(o.entities.items()):
            en.rotation = (en.rotation + 5) & 0xFFFF
            en.visible = not en.visible
            en.layer ^= 1
            o.entities[key] = (x, y + 1, en)
    elif name == "ent-vars":
        for _, _, en in o.entities.values():
            mutate_map(en.variables, k)
    elif name == "ent-arr":
        for _, _, en in o.entities.values():
            for attr in ("trigger_areas", "nodes", "entities", "colours", "pers", "sound_names", "control_widths"):
                if isinstance(getattr(type(en), attr, None), property):
                    out = attempt(lambda en=en, attr=attr: getattr(en, attr))
                    if out.ok and hasattr(out.value, "append"):
                        attempt(out.value.append, b"x" if attr == "sound_names" else (1.0, 2.0) if attr in ("trigger_areas", "control_widths") else 1)
    elif name == "ent-add":
        for c in (E.CheckPoint, E.CameraNode, E.LevelEnd, E.Entity, E.AIController, E.FogTrigger):
            en = c()
            if hasattr(en, "trigger_areas"):
                en.trigger_areas.append((1.0, 2.0))
            if hasattr(en, "entities"):
                en.entities.append(7)
            en.variables["q"] = V.VariableInt(k % 100)
            o.add_entity(5.0, 6.0, en)
    elif name == "transform":
        attempt(o.transform, TxMatrix.ROTATE[k % 4].translate(48.0 * (k % 3), 0.0))
    elif name == "upscale":
        if len(o.tiles) < 40:
            attempt(o.upscale, 2)
    elif name == "edges":
        o.calculate_edge_visibility()
        o.calculate_edge_caps()
        if k % 3:
            for t in lv.tiles.values():
                for e in t.edge_data:
                    e.solid = not e.solid
                    e.visible = not e.visible
                    e.caps = (True, False)
    elif name == "remap":
        attempt(o.remap_ids, 100 + k % 1000)
    elif name == "merge":
        for ok, oo in others:
            if ok == "level":
                attempt(o.merge, oo, k % 2 == 0)
                return True
        return False
    elif name == "backdrop":
        o.backdrop.tiles[(3, k % 9, 1)] = Tile()
    elif name == "sshot":
        o.sshot = b"mut%d" % (k % 100)
    elif name == "fresh":
        n = Level()
        n.variables["z"] = V.VariableInt(3)
        n.tiles[(1, 2, 3)] = Tile()
        n.add_entity(0, 0, E.Entity())
        n.backdrop.tiles[(1, 1, 1)] = Tile()
    else:
        return False
    return True


def mutation(plan, world):
    from dustmaker.dfreader import DFReader

    def load_all():
        out = []
        if plan["how"] == "built":
            return [[k, s, objs.build(k, s)] for k, s in plan["objs"] for _ in range(plan["copies"])]
        if plan["how"] == "one":
            blob, parts = b"", []
            for k, s in plan["objs"]:
                d = objs.encode(k, s)
                for _ in range(plan["copies"]):
                    parts.append((k, s, len(d)))
                    blob += d
            r = DFReader(io.BytesIO(blob))
            pos = 0
            for k, s, n in parts:
                o = must(lambda k=k, s=s, n=n: objs.load(r, k, s, n if k == "replay" else None), f"loading a {k}")
                pos += n
                must(lambda pos=pos: r.bit_seek(pos * 8), "seeking")
                out.append([k, s, o])
            return out
        for k, s in plan["objs"]:
            for _ in range(plan["copies"]):
                d = objs.encode(k, s)
                out.append([k, s, must(lambda k=k, s=s, d=d: objs.load(DFReader(io.BytesIO(d)), k, s, len(d) if k == "replay" else None), f"loading a {k}")])
        return out

    def look(k, s, o):
        obs = objs.observe(k, o, False) if k == "level" else objs.observe(k, o)
        return objs.frz(obs)

    def image(k, s, o):
        out = attempt(objs.plain_save, k, o, s)
        return out.value if out.ok else type(out.exc).__name__

    if plan["how"] not in ("streams", "one", "built"):
        raise InvalidPlan("how")
    all_ = load_all()
    state = [(look(*t), image(*t)) for t in all_]
    first = list(state)
    for n, (i, name, k) in enumerate(plan["edits"]):
        i %= len(all_)
        kind, s, o = all_[i]
        others = [(t[0], t[2]) for j, t in enumerate(all_) if j != i]
        did = edit(kind, o, name, k, others)
        world.log("edit", n, i, name, did)
        world.probe("edit-" + name, 1 if did else 0)
        for j, t in enumerate(all_):
            if j == i:
                continue
            now = look(*t)
            if now != state[j][0]:
                from .c03 import first_diff

                raise Violation("aliasing", f"edit {n} ({name}) of object {i} ({kind}) changed object {j} ({t[0]}): {first_diff(state[j][0], now)}")
        state[i] = (look(*all_[i]), None)
    for j, t in enumerate(all_):
        if state[j][1] is not None and image(*t) != state[j][1]:
            raise Violation("aliasing", f"changes to other objects changed what object {j} ({t[0]}) saves as")
    # later objects are not affected either
    for j, t in enumerate(load_all()):
        if look(*t) != first[j][0] or image(*t) != first[j][1]:
            raise Violation("residue", f"after edits, loading object {j} ({t[0]}) anew gives something else than before")


def run(plan, world):
    if not plan.get("objs"):
        raise InvalidPlan("objects")
    for k, s in plan["objs"]:
        objs.check_kind(k)
        objs.canon(k, s)
    if plan["mode"] == "threads":
        threads(plan, world)
    elif plan["mode"] == "mutate":
        mutation(plan, world)
    else:
        raise InvalidPlan("mode")
