"""C21: a session of flips, rotations, moves and upscalings leaves the level where the geometry says."""
from .. import objs
from .. import spec as sp
from .. import xform
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must, sha
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .roundtrip import gen_wfault

LEVEL = "exploration"
QUICK = 16000
THOROUGH = 300000
CHUNK = 40
RULE = "Each run drives one level (tiles of all shapes with edge data, props, entities with positions in their variables, start positions, backdrop) through a history of flips, rotations (any number of quarter turns), moves, upscalings and transformations by matrices composed in a drawn way, in between saves, failing saves, transformations that are interrupted or run out of memory at a drawn line (after which the session is lost), crashes back to the last completed save and reloads; some sequences are followed by their inverses. Oracle: an independent model with exact geometry, compared after every step with the whole level; saves and reloads change nothing."
REAL = ["dustmaker.level/tile/prop/entity/transform", "dustmaker.dfreader/dfwriter/bitio"]
STUB = ["raw stream and storage medium", "process death (in-memory state dropped)", "interrupt delivery"]
ASSUME = ["moves of tiles are judged when they are by whole tiles", "tile angles other than -128 (whose mirror image does not fit the format)"]

MATS = ("h", "v", "r0", "r1", "r2", "r3", "tr", "tr", "n1", "n2")
# linear parts
LIN = {"h": (-1, 0, 0, 1), "v": (1, 0, 0, -1), "r0": (1, 0, 0, 1), "r1": (0, -1, 1, 0), "r2": (-1, 0, 0, -1), "r3": (0, 1, -1, 0), "tr": (1, 0, 0, 1), "n1": (-1, 0, 0, -1), "n2": (-1, 0, 0, -1)}


def gen_shift(rng):
    if rng.random() < 0.75:
        return [48 * rng.randint(-20, 20), 48 * rng.randint(-20, 20)]
    return [rng.randint(-1000, 1000), rng.randint(-1000, 1000)]


def gen_level(rng):
    s = sp.gen_level(rng, rng.choice([1, 1, 2]), angle_lim=89)
    for part in ("tiles", "bd_tiles"):
        s[part] = [t for t in s[part] if abs(t[1]) < 20000 and abs(t[2]) < 20000]
    s["props"] = [p for p in s["props"] if abs(p[2]) < 1e6 and abs(p[3]) < 1e6]
    s["bd_props"] = [p for p in s["bd_props"] if abs(p[2]) < 1e6 and abs(p[3]) < 1e6]
    s["entities"] = [e for e in s["entities"] if abs(e[1]) < 1e6 and abs(e[2]) < 1e6]
    for e in s["entities"]:
        e[4] = [[k, v] for k, v in e[4] if k not in KEYS]
    s["vars"] = [[k, v] for k, v in s["vars"] if k not in LKEYS]
    used = {x[0] for p in ("props", "entities", "bd_props") for x in s[p]}
    for _ in range(rng.choice([0, 1, 2, 3])):
        t = rng.choice(list(GEOM))
        i = rng.randint(100, 10**6)
        if i in used:
            continue
        used.add(i)
        m = []
        for k, ty in GEOM[t]:
            if rng.random() < 0.8:
                m.append([k, geom_val(rng, ty)])
        s["entities"].append([i, float(rng.randint(-9000, 9000)), float(rng.randint(-9000, 9000)), t, m, rng.choice([0, 0x4000, rng.randrange(65536)]), 18, rng.randint(0, 1), rng.randint(0, 1), 1])
    for p in range(1, 5):
        if rng.random() < 0.4:
            s["vars"].append([f"p{p}_x", ["i", rng.randint(-20000, 20000)]])
            s["vars"].append([f"p{p}_y", ["i", rng.randint(-20000, 20000)]])
    if rng.random() < 0.3:
        s["vars"].append(["level_type", ["i", rng.choice([0, 1, 4, 6])]])
    return s


GEOM = {
    "check_point": [("trigger_area", "va")], "level_end_prox": [("trigger_area", "va"), ("finished", "b")], "AI_controller": [("nodes", "va"), ("puppet_id", "u")],
    "kill_box": [("width", "n"), ("height", "n")], "camera_node": [("zoom_h", "n"), ("width", "n"), ("node_type", "n")], "enemy_key": [("lastKnowX", "f"), ("lastKnowY", "f"), ("dm_scale", "f")],
    "enemy_bear": [("dm_scale", "f")], "hittable_apple": [("dm_scale", "f")], "dust_man": [("dm_scale", "f")], "base_trigger": [("width", "n")], "fog_trigger": [("width", "n")], "level_end": [("ent_list", "ua")],
    "vsim_user": [("spots", "va")], "z_vsim_user": [("spots", "va"), ("friend", "u")],
}
KEYS = {k for v in GEOM.values() for k, _ in v}
LKEYS = {"level_type"} | {f"p{p}_{c}" for p in range(1, 5) for c in "xy"}


def geom_val(rng, ty):
    if ty == "va":
        return ["a", "v", [["v", [float(rng.randint(-4000, 4000)), rng.randint(-4000, 4000) / 4]] for _ in range(rng.choice([0, 1, 2, 4]))]]
    if ty == "ua":
        return ["a", "u", [["u", rng.randrange(1000)] for _ in range(rng.choice([0, 1, 3]))]]
    if ty == "n":
        return ["i", rng.randint(0, 4000)]
    if ty == "f":
        return ["f", rng.randint(-4000, 4000) / 8 if rng.random() < 0.7 else 1.0]
    if ty == "b":
        return ["b", rng.random() < 0.5]
    return ["u", rng.randrange(1000)]


def gen(rng, tier):
    ops = []
    grow = 1
    for _ in range(rng.choice([1, 2, 4, 8])):
        k = rng.choice(["hflip", "vflip", "rotate", "rotate", "move", "upscale", "mat", "mat", "save", "fail", "crash", "reload", "int"])
        op = {"op": k}
        if k == "rotate":
            op["n"] = rng.choice([0, 1, 1, 2, 3, 4, 5, -1, -2, -3, -7, 10, 11, rng.randint(-40, 40)])
        elif k == "move":
            op["by"] = gen_shift(rng)
        elif k == "upscale":
            op["f"] = rng.choice([1, 2, 2, 3, 4, 5])
            if grow * op["f"] > 8:
                continue
            grow *= op["f"]
            if rng.random() < 0.4:
                op["mats"] = gen_mats(rng)
        elif k == "mat":
            op["mats"] = gen_mats(rng)
            op["left"] = rng.random() < 0.5
        elif k == "int":
            op["int"], op["when"] = rng.choice(["interrupt", "memory"]), rng.random()
            op["r"] = gen_rcfg(rng, forward=0.0)
        elif k == "fail":
            op["w"] = gen_wcfg(rng, layers=("raw", "buf", "duck"))
            gen_wfault(rng, op["w"])
        elif k in ("save", "reload"):
            op["w"] = gen_wcfg(rng)
        if k in ("crash", "reload"):
            op["r"] = gen_rcfg(rng, forward=0.0)
        ops.append(op)
    return {"spec": gen_level(rng), "ops": ops, "back": rng.random() < 0.3}


def gen_mats(rng):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        m = rng.choice(MATS)
        out.append([m] + (gen_shift(rng) if m == "tr" else []))
    return out


class Geo(xform.T):
    """Scale by f, apply the linear part, shift; all exact."""

    def __init__(self, f=1, lin=(1, 0, 0, 1), tx=0, ty=0):
        self.f = f
        self.m = lin
        self.tx, self.ty = tx, ty

    @property
    def flipped(self):
        return self.m[0] * self.m[3] - self.m[1] * self.m[2] < 0

    def lin(self, x, y):
        x, y = x * self.f, y * self.f
        a, b, c, d = self.m
        return a * x + b * y, c * x + d * y

    def rot(self, r, flip_y):
        # as turns followed by a mirror image top to bottom, when there is one
        m = self.m
        if self.flipped:
            m = (m[0], m[1], -m[2], -m[3])
        k = {(1, 0, 0, 1): 0, (0, -1, 1, 0): 1, (-1, 0, 0, -1): 2, (0, 1, -1, 0): 3}[m]
        r += 0x4000 * k
        if self.flipped:
            r, flip_y = 0x8000 - r, not flip_y
        return r & 0xFFFF, flip_y

    def then(self, lin, tx=0, ty=0):
        a, b, c, d = lin
        e, f, g, h = self.m
        return Geo(self.f, (a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h), a * self.tx + b * self.ty + tx, c * self.tx + d * self.ty + ty)


def of_mats(mats):
    g = Geo()
    for m in mats:
        if m[0] not in MATS or (m[0] == "tr") != (len(m) == 3):
            raise InvalidPlan("mat")
        g = g.then(LIN[m[0]], *m[1:])
    return g


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.level import Level
    from dustmaker.transform import TxMatrix

    def matrix(mats, left=True):
        """The composed matrix, multiplied up from either side."""
        parts = []
        for m in mats:
            parts.append({"h": TxMatrix.HFLIP, "v": TxMatrix.VFLIP}.get(m[0]) or (TxMatrix.IDENTITY.translate(*m[1:]) if m[0] == "tr" else TxMatrix.ROTATE[2 if m[0][0] == "n" else int(m[0][1])]))
        if not left:
            out = TxMatrix.IDENTITY
            for p in reversed(parts):
                out = out * p
            return out
        out = TxMatrix.IDENTITY
        for m, p in zip(mats, parts):
            if m[0] == "n1":
                out = -1 * out
            elif m[0] == "n2":
                out = out * -1.0
            else:
                out = out.translate(*m[1:]) if m[0] == "tr" else p * out
        return out

    s = plan["spec"]
    objs.canon("level", s)
    state = {"lv": objs.build("level", s)}
    want = objs.canon("level", s, False)
    saved = None

    def now(persisted=False):
        return objs.observe("level", state["lv"], persisted)

    def store(cfg):
        h = open_stream(world, Store(), cfg, "w")

        def go():
            with DFWriter(h.f) as w:
                w.write_level(state["lv"])

        out = attempt(go)
        if h.raw is not None:
            h.raw.fl.armed = False
            attempt(h.f.close)
        return h, out

    def fetch(data, cfg, where):
        h = open_stream(world, Store(data), cfg, "r")
        state["lv"] = must(lambda: DFReader(h.f).read_level(), where)
        return now()

    def lost(op, where):
        nonlocal want
        world.fault("crash")
        if saved is None:
            state["lv"] = objs.build("level", s)
            want = objs.canon("level", s, False)
            return
        got = fetch(saved[0], op["r"], f"{where}: reloading after a crash")
        d = sp.diff_level(saved[1], got)
        if d:
            raise Violation("reload", f"{where}: {d}")
        want = got

    def step(fn, geo, where):
        nonlocal want
        must(fn, where)
        got = now()
        d = diff(want, got, geo)
        if d:
            raise Violation("geometry", f"{where}: {d}")
        want = got
        world.log(where, sha(repr(sorted(got["tiles"].items())).encode()))

    done = []
    for j, op in enumerate(plan["ops"]):
        k = op["op"]
        where = f"step {j} ({k})"
        lv = state["lv"]
        world.log(j, k)
        if k == "hflip":
            step(lv.flip_horizontal, Geo(1, LIN["h"]), where)
            done.append(k)
        elif k == "vflip":
            step(lv.flip_vertical, Geo(1, LIN["v"]), where)
            done.append(k)
        elif k == "rotate":
            step(lambda: lv.rotate() if op["n"] == 1 else lv.rotate(op["n"]), Geo(1, LIN[f"r{op['n'] % 4}"]), f"{where} by {op['n']}")
            done.append(op["n"])
        elif k == "move":
            x, y = op["by"]
            step(lambda: lv.translate(x, y), Geo(1, LIN["r0"], x, y), f"{where} by {x}, {y}")
            done.append([x, y])
        elif k == "upscale":
            f = op["f"]
            if not 1 <= f <= 8:
                raise InvalidPlan("factor")
            g = of_mats(op.get("mats") or [])
            g = Geo(f, g.m, g.tx * f, g.ty * f)
            if op.get("mats"):
                m = must(lambda: matrix(op["mats"]), "composing")
                step(lambda: lv.upscale(f, mat=m), g, f"{where} by {f} with {op['mats']}")
            else:
                step(lambda: lv.upscale(f), g, f"{where} by {f}")
            done = []
        elif k == "mat":
            m = must(lambda: matrix(op["mats"], op.get("left")), "composing")
            step(lambda: lv.transform(m), of_mats(op["mats"]), f"{where} {op['mats']}")
            done = []
        elif k == "int":
            twin = objs.build("level", {**s})
            with LineTracer() as count:
                attempt(twin.rotate)
            with LineTracer(1 + int(op["when"] * count.n), INTERRUPTS[op["int"]]("simulated")) as tr:
                attempt(lv.rotate)
            if tr.fired:
                world.fault(op["int"])
            lost(op, where)
            done = []
        elif k in ("save", "fail", "reload"):
            h, out = store(op["w"])
            fired = h.fired()
            if out.ok:
                saved = (stored(h), now(True))
            elif not fired:
                raise Violation("unexpected-error", f"{where}: saving {out.describe()}")
            d = sp.diff_level(want, now())
            if d:
                raise Violation("save", f"{where}: saving changed the level: {d}")
            if k == "reload":
                if not out.ok:
                    raise InvalidPlan("reload")
                got = fetch(saved[0], op["r"], where)
                d = sp.diff_level(saved[1], got)
                if d:
                    raise Violation("reload", f"{where}: {d}")
                want = got
                done = []
        elif k == "crash":
            lost(op, where)
            done = []
        else:
            raise InvalidPlan(k)
    if plan.get("back") and done:
        # all the way back
        lv = state["lv"]
        for i, d in enumerate(reversed(done)):
            where = f"undoing {d}"
            if d == "hflip":
                step(lv.flip_horizontal, Geo(1, LIN["h"]), where)
            elif d == "vflip":
                step(lv.flip_vertical, Geo(1, LIN["v"]), where)
            elif isinstance(d, list):
                step(lambda: lv.translate(-d[0], -d[1]), Geo(1, LIN["r0"], -d[0], -d[1]), where)
            else:
                step(lambda: lv.rotate(-d), Geo(1, LIN[f"r{-d % 4}"]), where)
        world.probe("all-undone")


def diff(src, got, geo):
    return xform.diff_level(src, got, geo, stored=False)
