"""C23: edge data brought up to date during an editing session follows the documented rules."""
import copy
import math

from .. import objs
from .. import spec as sp
from .. import xform
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must, sha
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .roundtrip import gen_wfault

LEVEL = "exploration"
QUICK = 40000
THOROUGH = 400000
CHUNK = 40
RULE = "Each run drives one level (or its backdrop) through a history of placing, replacing, reshaping, recolouring and removing neighbouring tiles, putting dust and spikes on edges, showing and hiding edges by hand, and bringing edge visibility and caps up to date, with or without a visibility callback; the callback fails at drawn calls, the computation is interrupted or out of memory at drawn lines (and repeated, or the session lost), and in between the level is saved, saved to failing storage, crashed back to the last save and reloaded. Oracle: a reference model that keeps the tiles and applies the documented rules with exact geometry; after every step all tiles and all edge data agree with it, the callback saw exactly the edges it has to decide, bringing up to date again changes nothing."
REAL = ["dustmaker.level (calculate_edge_visibility, calculate_edge_caps)", "dustmaker.tile", "dustmaker.dfreader/dfwriter/bitio"]
STUB = ["raw stream and storage medium", "process death (in-memory state dropped)", "interrupt delivery", "visibility callback"]
ASSUME = ["caps are brought up to date after visibility, as documented"]

DIRS = ((0, -1), (0, 1), (-1, 0), (1, 0))  # top bottom left right
ZERO = xform.ZERO
CALLBACKS = ("none", "none", "yes", "no", "hash", "side")
# shapes that meet at corners more often than chance would have it
SLOPES = (0, 0, 1, 2, 9, 10, 17, 18, 19, 20)


def gen(rng, tier):
    style = rng.choice(["any", "any", "slopes", "full"])
    sprites = rng.choice([[(1, 1, 0)], [(1, 1, 0), (1, 1, 0), (2, 1, 0)], [(1, 1, 0), (1, 2, 0), (1, 1, 1)]])
    layers = rng.choice([[19], [19], [19, 18], [3]])
    ox, oy = rng.choice([(0, 0), (0, 0), (255, -3), (-256, 15)])
    size = rng.choice([2, 3, 3, 4])

    def tile():
        layer = rng.choice(layers)
        x, y = ox + rng.randrange(size), oy + rng.randrange(size)
        shape = 0 if style == "full" else rng.choice(SLOPES) if style == "slopes" else rng.randint(0, 20)
        s = rng.choice(sprites)
        edges = []
        for _ in range(4):
            e = sp.gen_edge(rng, True) if rng.random() < 0.5 else [0] * 12
            if e[6] and rng.random() < 0.7:
                e[6], e[7] = rng.choice([1, 1, 2]), rng.randint(0, 1)
            edges.append(e)
        return [layer, x, y, shape, 4, *s, edges]

    ops = [{"op": "put", "tiles": [tile() for _ in range(rng.choice([1, 3, 6, 12, 16]))]}]
    for _ in range(rng.choice([1, 3, 6, 12])):
        k = rng.choice(["put", "put", "del", "shape", "sprite", "filth", "show", "show", "vis", "caps", "caps", "caps", "save", "fail", "crash", "reload"])
        op = {"op": k, "k": rng.randrange(1000)}
        if k == "put":
            op["tiles"] = [tile() for _ in range(rng.choice([1, 1, 2, 5]))]
        elif k == "shape":
            op["v"] = rng.randint(0, 20)
        elif k == "sprite":
            op["v"] = list(rng.choice(sprites))
        elif k == "filth":
            op["side"], op["v"] = rng.randrange(4), [rng.choice([0, 1, 1, 2]), rng.randint(0, 1)]
        elif k == "show":
            op["side"], op["v"] = rng.randrange(4), [rng.randint(0, 1), rng.randint(0, 1)]
        elif k in ("vis", "caps"):
            op["cb"] = rng.choice(CALLBACKS)
            if rng.random() < 0.2:
                op["int"], op["when"] = rng.choice(["interrupt", "memory"]), rng.random()
            elif rng.random() < 0.15:
                op["raise"] = rng.choice([0, 0, 1, rng.randint(0, 6)])
            op["then"] = rng.choice(["again", "again", "crash"])
            op["twice"] = rng.random() < 0.3
        elif k == "fail":
            op["w"] = gen_wcfg(rng, layers=("raw", "buf", "duck"))
            gen_wfault(rng, op["w"])
        elif k in ("save", "reload"):
            op["w"] = gen_wcfg(rng)
        if k in ("crash", "reload"):
            op["r"] = gen_rcfg(rng, forward=0.0)
        if k in ("vis", "caps"):
            op["r"] = gen_rcfg(rng, forward=0.0)
        ops.append(op)
    if ops[-1]["op"] not in ("vis", "caps"):
        ops.append({"op": "caps", "k": 0, "cb": rng.choice(CALLBACKS), "twice": rng.random() < 0.5})
    return {"ops": ops, "bd": rng.random() < 0.1}


# ------------------------------------------------------------------------- model
def ends(shape, side, x, y):
    """The two corners of a side, clockwise, in half tiles of the level."""
    a, b = xform.side_ends(shape, side)
    return (a[0] + 2 * x, a[1] + 2 * y), (b[0] + 2 * x, b[1] + 2 * y)


def exists(shape, side):
    return xform.side_exists(shape, side)


def flush(shape, side):
    a, b = xform.side_ends(shape, side)
    return exists(shape, side) and (a[0] == b[0] or a[1] == b[1])


def decide(cb, x, y, side):
    if cb == "yes":
        return True
    if cb == "no":
        return False
    if cb == "hash":
        return (x * 7 + y * 13 + side * 3) % 5 < 2
    return side in (0, 2)


def visibility(tiles, cb):
    """New tiles and the edges the callback has to decide."""
    out, asked = {}, []
    for (layer, x, y), t in tiles.items():
        edges = []
        for side in range(4):
            e = list(t[5][side])
            if not exists(t[0], side):
                edges.append(ZERO)
                continue
            n = tiles.get((layer, x + DIRS[side][0], y + DIRS[side][1]))
            if not flush(t[0], side) or n is None or not flush(n[0], side ^ 1):
                e[0] = e[1] = True
            else:
                e[0] = False
                if t[2:5] == n[2:5]:
                    e[1] = False
                elif cb == "none":
                    e[1] = side in (1, 3)
                else:
                    asked.append((layer, x, y, side))
                    e[1] = decide(cb, x, y, side)
            edges.append(tuple(e))
        out[(layer, x, y)] = t[:5] + (tuple(edges),)
    return out, sorted(asked)


def turn(u, v):
    """Clockwise turn from direction u to direction v in degrees (y down)."""
    return math.degrees(math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]))


def caps(tiles):
    # dust of invisible edges goes first, whatever the order
    base = {}
    for key, t in tiles.items():
        base[key] = t[:5] + (tuple(e if e[1] else (e[0], e[1]) + ZERO[2:] for e in t[5]),)
    out = {}
    for (layer, x, y), t in base.items():
        edges = []
        for side in range(4):
            e = t[5][side]
            if not e[1]:
                edges.append(e)
                continue
            e = list(e)
            e[2:6] = [False, False, 0, 0]
            e[8:12] = [False, False, 0, 0]
            first, second = ends(t[0], side, x, y)
            for corner in (0, 1):
                a, b = (first, second) if corner else (second, first)
                if b[0] % 2 or b[1] % 2:
                    continue  # ends between tile corners
                d = (b[0] - a[0], b[1] - a[1])
                joins = []
                for dx in (-1, 0, 1):
                    for dy in (-1, 0, 1):
                        n = base.get((layer, x + dx, y + dy))
                        if n is None or (dx, dy) == (0, 0) or n[2:5] != t[2:5] or not n[5][side][1]:
                            continue
                        nf, ns = ends(n[0], side, x + dx, y + dy)
                        na, nb = (nf, ns) if corner else (ns, nf)
                        if na == b:
                            joins.append((turn(d, (nb[0] - na[0], nb[1] - na[1])), n[5][side]))
                if not joins:
                    e[2 + corner] = True
                    e[8 + corner] = bool(e[6])
                    continue
                # going clockwise (towards the second corner) the most counter-clockwise one
                angle, ne = min(joins, key=lambda j: j[0] if corner else -j[0])
                half = int(angle / 2 + math.copysign(1e-6, angle))
                e[4 + corner] = half
                if e[6]:
                    if (e[6], e[7]) == (ne[6], ne[7]):
                        e[10 + corner] = half
                    else:
                        e[8 + corner] = True
            edges.append(tuple(e))
        out[(layer, x, y)] = t[:5] + (tuple(edges),)
    return out


# --------------------------------------------------------------------------- run
class CallbackError(Exception):
    pass


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.level import Level
    from dustmaker.tile import TileShape, TileSpriteSet

    bd = bool(plan.get("bd"))
    state = {"lv": Level()}
    model = {}
    saved = None
    stale = False  # tiles changed since visibility was last brought up to date

    def level():
        return state["lv"].backdrop if bd else state["lv"]

    def check(where, want):
        got = {k: sp.observe_tile(t) for k, t in level().tiles.items()}
        if set(got) != set(want):
            raise Violation("tiles", f"{where}: tiles at {sorted(set(got) ^ set(want))[:3]} appeared or vanished")
        for k, w in want.items():
            g = got[k]
            if g[:5] != w[:5]:
                raise Violation("tile", f"{where}: tile {k} is {g[:5]}, should be {w[:5]}")
            for s in range(4):
                if g[5][s] != w[5][s]:
                    raise Violation("edge", f"{where}: tile {k} shape {w[0]} side {s} has edge data {g[5][s]}, should be {w[5][s]}")

    def save(cfg):
        h = open_stream(world, Store(), cfg, "w")

        def go():
            with DFWriter(h.f) as w:
                w.write_level(state["lv"])

        out = attempt(go)
        if h.raw is not None:
            h.raw.fl.armed = False
            attempt(h.f.close)
        return h, out

    def keep():
        return {k: t[:5] + (xform.persisted(k[0], t[5]),) for k, t in model.items()}

    def load(data, cfg):
        h = open_stream(world, Store(data), cfg, "r")
        state["lv"] = must(lambda: DFReader(h.f).read_level(), "reloading")

    def crash(op):
        nonlocal model, stale
        world.fault("crash")
        if saved is None:
            state["lv"] = Level()
            model = {}
        else:
            load(saved[0], op["r"])
            model = dict(saved[1])
        stale = True

    def compute(op, what, where, loose=False):
        """One call of the code under test; True when it completed."""
        nonlocal model
        calls = []
        cb = op["cb"]
        stop = op.get("raise")

        def callback(x, y, side, tile, ntile):
            layer = next((k[0] for k, t in level().tiles.items() if t is tile), None)
            if layer is None or k_of(tile) != (x, y) or level().tiles.get((layer, x + DIRS[side][0], y + DIRS[side][1])) is not ntile:
                raise Violation("callback", f"{where}: callback asked about {(x, y, int(side))} with other tiles")
            if stop is not None and len(calls) >= stop:
                world.fault("callback-fails")
                raise CallbackError("simulated")
            calls.append((layer, x, y, int(side)))
            return decide(cb, x, y, int(side))

        def k_of(tile):
            return next((k[1:] for k, t in level().tiles.items() if t is tile), None)

        def go():
            if what == "caps":
                return level().calculate_edge_caps()
            if cb == "none":
                return level().calculate_edge_visibility()
            return level().calculate_edge_visibility(visible_callback=callback)

        want, asked = (visibility(model, cb) if what == "vis" else (caps(model), []))
        tr = None
        if "int" in op and op.get("_phase") == what:
            twin = copy.deepcopy(level())
            with LineTracer() as count:
                if what == "caps":
                    attempt(twin.calculate_edge_caps)
                else:
                    attempt(lambda: twin.calculate_edge_visibility(visible_callback=None if cb == "none" else lambda x, y, s, t, n: decide(cb, x, y, int(s))))
            tr = LineTracer(1 + int(op["when"] * count.n), INTERRUPTS[op["int"]]("simulated"))
            with tr:
                out = attempt(go)
            if tr.fired:
                world.fault(op["int"])
        else:
            out = attempt(go)
        disturbed = (tr is not None and tr.fired is not None) or (stop is not None and what == "vis" and isinstance(out.exc, CallbackError))
        world.log(what, cb, out.ok, disturbed, len(calls), sha(repr(sorted(model.items())).encode()))
        if not out.ok:
            if not disturbed:
                raise Violation("unexpected-error", f"{where} {out.describe()}")
            return False
        if disturbed and tr is not None:
            return False  # swallowed: judged by the repetition
        if stop is not None and what == "vis" and cb != "none" and len(asked) > stop:
            raise Violation("callback", f"{where}: the callback failed and nobody noticed")
        if cb != "none" and what == "vis" and sorted(calls) != asked:
            raise Violation("callback", f"{where}: the callback decided {sorted(set(calls) ^ set(asked))[:3] or 'some edges twice'} differently from the rules")
        model = want
        if not loose:
            check(where, model)
        return True

    for j, op in enumerate(plan["ops"]):
        k = op["op"]
        where = f"step {j} ({k})"
        keys = sorted(model)
        pick = keys[op.get("k", 0) % len(keys)] if keys else None
        if k == "put":
            for t in op["tiles"]:
                if not 0 <= t[3] <= 20:
                    raise InvalidPlan("shape")
                level().tiles[tuple(t[:3])] = must(lambda: sp.build_tile(t), "building a tile")
                model.pop(tuple(t[:3]), None)
                model[tuple(t[:3])] = sp.canon_tile(t, False)
            stale = True
        elif k in ("del", "shape", "sprite", "filth", "show"):
            if pick is None:
                continue
            tile, m = level().tiles[pick], model[pick]
            if k == "del":
                del level().tiles[pick]
                del model[pick]
            elif k == "shape":
                tile.shape = TileShape(op["v"])
                model[pick] = (op["v"],) + m[1:]
            elif k == "sprite":
                a, b, c = op["v"]
                must(lambda: tile.set_sprite_tuple((TileSpriteSet(a), b, c)), where)
                model[pick] = m[:2] + (a, b, c) + m[5:]
            elif k == "show":
                # decided by hand
                side, (a, b) = op["side"], op["v"]
                if not exists(m[0], side):
                    continue
                tile.edge_data[side].solid, tile.edge_data[side].visible = bool(a), bool(b)
                edges = list(m[5])
                edges[side] = (bool(a), bool(b)) + edges[side][2:]
                model[pick] = m[:5] + (tuple(edges),)
            else:
                side, (a, b) = op["side"], op["v"]
                tile.edge_data[side].filth_sprite_set = TileSpriteSet(a)
                tile.edge_data[side].filth_spike = bool(b)
                edges = list(m[5])
                edges[side] = edges[side][:6] + (a, bool(b)) + edges[side][8:]
                model[pick] = m[:5] + (tuple(edges),)
            stale = stale or k not in ("filth", "show")
        elif k in ("vis", "caps"):
            if op["cb"] not in CALLBACKS:
                raise InvalidPlan("cb")
            phases = ["vis"] if k == "vis" else (["vis"] if stale else []) + ["caps"]
            op = {**op, "_phase": phases[-1] if op.get("when", 0) < 0.7 else phases[0]}
            ok = True
            for what in phases:
                ok = compute(op, what, f"{where}: {what}")
                if not ok:
                    break
            if not ok:
                world.probe("computation-failed")
                if op["then"] == "crash":
                    crash(op)
                    check(f"{where}: after the crash", model)
                    continue
                quiet = {**op}
                quiet.pop("int", None)
                quiet.pop("raise", None)
                for i, what in enumerate(phases):
                    # what an unfinished computation of the caps left behind is replaced by the next one
                    compute(quiet, what, f"{where}: {what} again after a failure", i + 1 < len(phases))
                world.probe("repeated")
            stale = False
            if op.get("twice"):
                quiet = {**op}
                quiet.pop("int", None)
                quiet.pop("raise", None)
                before = model
                for what in phases:
                    compute(quiet, what, f"{where}: {what} once more")
                if k == "caps" and model != before:
                    raise InvalidPlan("the model is not idempotent")
        elif k in ("save", "fail"):
            h, out = save(op["w"])
            fired = h.fired()
            world.log("save", out.ok, fired)
            if out.ok:
                saved = (stored(h), keep())
            elif not fired:
                raise Violation("unexpected-error", f"{where}: saving {out.describe()}")
        elif k == "reload":
            h, out = save(op["w"])
            if not out.ok:
                raise Violation("unexpected-error", f"{where}: saving {out.describe()}")
            saved = (stored(h), keep())
            load(saved[0], op["r"])
            model = dict(saved[1])
        elif k == "crash":
            crash(op)
        else:
            raise InvalidPlan(k)
        check(where, model)
