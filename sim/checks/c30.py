"""C30: merging levels brings everything over once and leaves the two independent."""
import copy
import io

from .. import objs
from .. import refcodec as rc
from .. import spec as sp
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .c15 import gen_tlevel
from .c17 import OPS, apply_edit, arg
from .roundtrip import gen_wfault

LEVEL = "exploration"
QUICK = 5000
THOROUGH = 250000
CHUNK = 25
RULE = "Each run drives two to four levels (built, loaded or copied from each other) through a history of edits of any kind, in-place changes of tiles, props and entity variables, merges with and without remapping (also of backdrops, also cut short by an interrupt or lack of memory), saves, failing saves, reloads and crashes back to the last completed save. Oracle: after a merge the target holds exactly the union of the observed contents of both (the other level winning a place or, without remapping, an ID both use; links and IDs are left to C18), its own variables and thumbnail and the source are as before; after every step, every level other than the one edited is observed to be exactly as before; a crash brings back what the last completed save held."
REAL = ["dustmaker.level/tile/prop/entity/variable", "dustmaker.dfreader/dfwriter/bitio"]
STUB = ["raw stream and storage medium", "process death (in-memory state dropped)", "interrupt delivery"]
ASSUME = ["edits use values the file format can represent exactly", "a merge that is cut short may leave the target half merged, but not the source changed"]

LINKVARS = {"puppet_id", "c_node_ids", "ent_list", "door", "friend", "level_list_id"}
EDITS = tuple(o for o in OPS if o not in ("merge",))
MIX = ("edit", "edit", "edit", "edit", "poke", "poke", "poke", "merge", "merge", "merge", "mergeraw", "mergebd", "bdmerge", "cut", "copy", "save", "fail", "reload", "crash")


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    specs = []
    for _ in range(n):
        s = gen_tlevel(rng)
        for key in ("props", "entities", "bd_props"):
            for q in s[key]:
                q[0] %= 10**6
        if rng.random() < 0.5:  # levels that collide in places and IDs
            base = rng.randint(100, 104)
            for j, q in enumerate(s["props"] + s["entities"] + s["bd_props"]):
                q[0] = base + j
        uniq(s)
        specs.append(s)
    ops = []
    for _ in range(rng.choice([2, 4, 8, 14, 20])):
        k = rng.choice(MIX)
        op = {"op": k, "on": rng.randrange(n), "k": rng.randrange(10**6)}
        if k == "edit":
            e = rng.choice(EDITS)
            op["edit"] = [e, rng.randrange(10**6), 2 if e == "upscale" else arg(rng, e)]
        elif k == "poke":
            op["what"] = rng.choice(["edge", "tile", "bdtile", "prop", "bdprop", "ent", "entvar", "var"])
            op["v"] = rng.randrange(1, 1000)
        elif k in ("merge", "mergeraw", "mergebd", "bdmerge", "copy", "cut"):
            op["other"] = rng.randrange(n)
            if k == "cut":
                op["int"] = rng.choice(["interrupt", "memory"])
                op["when"] = rng.random()
                op["remap"] = rng.random() < 0.7
            if k == "mergebd":
                op["remap"] = rng.random() < 0.5
        elif k == "fail":
            op["w"] = gen_wcfg(rng, layers=("raw", "buf", "duck"))
            gen_wfault(rng, op["w"])
        if k in ("save", "reload"):
            op["w"] = gen_wcfg(rng)
        if k in ("reload", "crash"):
            op["r"] = gen_rcfg(rng, forward=0.0)
        ops.append(op)
    return {"specs": specs, "loaded": [rng.random() < 0.4 for _ in specs], "ops": ops}


def uniq(s):
    for key in ("props", "entities", "bd_props"):
        seen = {}
        for q in s[key]:
            seen[q[0]] = q
        s[key] = list(seen.values())


def bag(table, links=False):
    """Contents of an ID table, without the IDs."""
    out = []
    for v in table.values():
        if links:
            v = v[:3] + (tuple(kv for kv in v[3] if kv[0] not in LINKVARS),) + v[4:]
        out.append(repr(v))
    return sorted(out)


def first_diff(a, b):
    a, b = list(a), list(b)
    for x in list(a):
        if x in b:
            a.remove(x)
            b.remove(x)
    return f"lost {a[:2]}, came up with {b[:2]}"


def expect_union(where, before, src, now, remap, bd=True):
    """The target's observation after merging `src` into `before`."""
    for key in ("tiles", "bd_tiles"):
        want = {**before[key], **(src[key] if bd or key == "tiles" else {})}
        d = sp.diff_map(want, now[key], key, sp.cmp_tile)
        if d:
            raise Violation("merge-tiles", f"{where}: {d}")
    for key in ("props", "entities", "bd_props"):
        other = src[key] if bd or key != "bd_props" else {}
        ent = key == "entities"
        if remap:
            a = sorted(bag(before[key], ent) + bag(other, ent))
            b = bag(now[key], ent)
        else:
            both = {**before[key], **other}
            a, b = bag(both, ent), bag(now[key], ent)
            if a == b and set(both) != set(now[key]):
                raise Violation("merge-ids", f"{where}: {key} under IDs {sorted(now[key])[:8]} instead of {sorted(both)[:8]}")
        if a != b:
            raise Violation("merge-objects", f"{where}: {key} {first_diff(a, b)}")
    for key in ("vars", "sshot"):
        if before[key] != now[key]:
            raise Violation("merge-vars", f"{where}: {key} of the target changed")


def poke(lv, what, k, v):
    """Change something in place, the way editing code reaches into a level."""
    def one(d):
        return d[sorted(d)[k % len(d)]] if d else None

    if what in ("edge", "tile", "bdtile"):
        t = one(lv.backdrop.tiles if what == "bdtile" else lv.tiles)
        if t is None:
            return
        if what == "edge":
            e = t.edge_data[k % 4]
            e.angles = (v % 90, -(v % 45))
            e.caps = (bool(v & 1), bool(v & 2))
        else:
            t.sprite_tile = v % 100 + 1
            t.sprite_palette = v % 16
    elif what in ("prop", "bdprop"):
        p = one(lv.backdrop.props if what == "bdprop" else lv.props)
        if p is not None:
            p[3].rotation = v
            p[3].palette = v % 8
            p[3].flip_x = not p[3].flip_x
    elif what in ("ent", "entvar"):
        e = one(lv.entities)
        if e is None:
            return
        if what == "ent":
            e[2].rotation = v
            e[2].visible = not e[2].visible
        else:
            stir(e[2].variables, k, v)
    elif what == "var":
        stir(lv.variables, k, v)
    else:
        raise InvalidPlan("poke")


def stir(variables, k, v):
    """Change a variable object, or the innards of an array or struct, in place."""
    from dustmaker import variable as vm

    for name in sorted(variables)[k % max(1, len(variables)):]:
        x = variables[name]
        if name in LINKVARS or name in ("level_type",):
            continue
        if isinstance(x, vm.VariableArray):
            if len(x) and x.element_type is not vm.VariableArray:
                x.append(copy.deepcopy(x[0]))
                return
        elif isinstance(x, vm.VariableStruct):
            x.value["stirred%d" % v] = vm.VariableInt(v)
            return
        elif isinstance(x, (vm.VariableInt, vm.VariableUInt)):
            x.value = v
            return
        elif isinstance(x, vm.VariableString):
            x.value = b"stirred%d" % v
            return
    variables["poked%d" % (v % 5)] = sp.build_var(["a", "i", [["i", 1], ["i", v]]])


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter

    def load(data, cfg):
        h = open_stream(world, Store(data), cfg, "r")
        return must(lambda: DFReader(h.f).read_level(), "loading")

    def save(lv, cfg):
        h = open_stream(world, Store(), cfg, "w")

        def go():
            with DFWriter(h.f) as w:
                w.write_level(lv)

        out = attempt(go)
        fired = h.fired() if h.raw is not None else False
        data = stored(h)
        if h.raw is not None:
            h.raw.fl.armed = False
            attempt(h.f.close)
        return out, fired, data

    if len(plan["specs"]) < 2 or len(plan["specs"]) != len(plan["loaded"]):
        raise InvalidPlan("levels")
    lvs, disks = [], []
    for s, ld in zip(plan["specs"], plan["loaded"]):
        lvs.append(load(rc.enc_level(s, {}), {"layer": "bytesio"}) if ld else objs.build("level", s))
        disks.append(None)
    obs = [sp.observe_level(lv) for lv in lvs]

    def others(j, where):
        """Every level but `j` is as it was."""
        for i, lv in enumerate(lvs):
            if i == j:
                continue
            now = sp.observe_level(lv)
            if sp.freeze(now) != sp.freeze(obs[i]):
                raise Violation("disturbed", f"{where} on level {j} changed level {i}: {sp.diff_level(obs[i], now) or 'small change'}")

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        j = op["on"] % len(lvs)
        lv = lvs[j]
        where = f"step {n} ({k})"
        world.log(n, k, j)
        if k == "edit":
            e = op["edit"]
            if e[0] not in EDITS:
                raise InvalidPlan("edit")
            if e[0] == "upscale" and len(lv.tiles) + len(lv.backdrop.tiles) > 40:
                continue
            out = attempt(apply_edit, lv, *e)
            if not out.ok:
                raise Violation("unexpected-error", f"{where} {e[0]} {out.describe()}")
        elif k == "poke":
            out = attempt(poke, lv, op["what"], op["k"], op["v"])
            if not out.ok:
                if isinstance(out.exc, InvalidPlan):
                    raise out.exc
                raise Violation("unexpected-error", f"{where} {op['what']} {out.describe()}")
        elif k in ("merge", "mergeraw"):
            o = op["other"] % len(lvs)
            if o == j:
                continue
            before = obs[j]
            if k == "merge" and op["k"] & 1:
                must(lv.merge, where, lvs[o])  # remapping is the default
            else:
                must(lv.merge, where, lvs[o], remap_ids=k == "merge")
            expect_union(where, before, obs[o], sp.observe_level(lv), k == "merge")
            world.probe("merged" if k == "merge" else "merged-raw")
        elif k == "mergebd":
            # a backdrop merged into the foreground of another level
            o = op["other"] % len(lvs)
            if o == j:
                continue
            before, src = obs[j], obs[o]
            must(lv.merge, where, lvs[o].backdrop, remap_ids=op["remap"])
            part = {"tiles": src["bd_tiles"], "props": src["bd_props"], "entities": {}, "bd_tiles": {}, "bd_props": {}}
            expect_union(where, before, part, sp.observe_level(lv), op["remap"])
            world.probe("merged-backdrop")
        elif k == "bdmerge":
            # the foreground of a level merged into the backdrop of another (it holds no entities)
            o = op["other"] % len(lvs)
            if o == j or obs[o]["entities"]:
                continue
            before, src = obs[j], obs[o]
            must(lv.backdrop.merge, where, lvs[o], remap_ids=False)
            part = {"tiles": {}, "props": {}, "entities": {}, "bd_tiles": src["tiles"], "bd_props": src["props"]}
            expect_union(where, before, part, sp.observe_level(lv), False)
            world.probe("merged-into-backdrop")
        elif k == "cut":
            o = op["other"] % len(lvs)
            if o == j:
                continue
            if op["int"] not in INTERRUPTS:
                raise InvalidPlan("int")
            dry, src = copy.deepcopy(lv), copy.deepcopy(lvs[o])
            with LineTracer() as tr:
                attempt(dry.merge, src, remap_ids=op["remap"])
            with LineTracer(raise_at=1 + int(op["when"] * tr.n), exc=INTERRUPTS[op["int"]]()) as tr:
                attempt(lv.merge, lvs[o], remap_ids=op["remap"])
            if tr.fired:
                world.fault(op["int"] + "@merge")
        elif k == "copy":
            o = op["other"] % len(lvs)
            if o == j:
                continue
            lvs[j] = lv = must(copy.deepcopy, where, lvs[o])
            disks[j] = None
            if sp.freeze(sp.observe_level(lv)) != sp.freeze(obs[o]):
                raise Violation("copy", f"{where}: the copy differs: {sp.diff_level(obs[o], sp.observe_level(lv))}")
        elif k in ("save", "fail", "reload"):
            out, fired, data = save(lv, op["w"])
            if not out.ok and not fired:
                raise InvalidPlan("cannot be stored: " + out.describe())
            if out.ok:
                disks[j] = data
            if k == "reload" and out.ok:
                lvs[j] = lv = load(data, op["r"])
                # edges of cut-off angles or off-grid positions aside, a reload changes nothing;
                # what it may change is judged by C06
                world.fault("reload")
        elif k == "crash":
            if disks[j] is None:
                continue
            want = rc.dec_level(disks[j], 0, True)[0]
            lvs[j] = lv = load(disks[j], op["r"])
            world.fault("crash")
            d = sp.diff_level(want, sp.observe_level(lv, True))
            if d:
                raise Violation("crash", f"{where}: after the crash level {j} is not what was saved: {d}")
        else:
            raise InvalidPlan(k)
        others(j, where)
        obs[j] = sp.observe_level(lv)
        if any(i > 2**30 for key in ("props", "entities", "bd_props") for i in obs[j][key]):
            raise InvalidPlan("IDs beyond the file format")
        if len(obs[j]["tiles"]) > 600:
            raise InvalidPlan("too big")
