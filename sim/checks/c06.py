"""C06: a level whose save succeeded reloads as the same level."""
import io

from .. import objs
from .. import refcodec as rc
from ..kernel import InvalidPlan, Violation, attempt, must
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from . import roundtrip

LEVEL = "exploration"
QUICK = 7000
THOROUGH = 800000
CHUNK = 60
RULE = "Each run draws a level (all element kinds, extreme coordinates, dense segments, region and segment borders), saves it through drawn storage (raw, buffered, duck-typed, in-memory; short writes; stale previous content) with failed attempts before the good one, and reloads it through drawn streams with failed attempts. In some runs one value is more than the format can hold: then the save has to raise or keep it. In others one value is the largest that fits, and a few crowd up to 70001 props or entities into one segment. Oracle: whatever reported success reloads as the reference model's level and is decoded as that level by an independent decoder."
REAL = ["dustmaker.dfwriter", "dustmaker.dfreader", "dustmaker.bitio", "dustmaker.level/tile/prop/entity/variable", "zlib", "io.Buffered* when drawn"]
STUB = ["raw streams and storage medium"]
ASSUME = ["values are within what the format can represent: tile layers 0-20, edge angles -128..127, region coordinates of 16 bits, property keys and entity types of the 6-bit alphabet, prop scale on the format's grid; a negative value in an unsigned field stands for the value of the same bits; numeric resolution 1 px for props, 1/128 px for entities, 2^-31 for float variables"]


def gen(rng, tier):
    if rng.random() < 0.0012:
        # a crowd in one segment: up to and beyond what the format counts
        k = rng.choice(["prop", "entity"])
        return {"many": {"k": k, "n": rng.choice([700, 5000, 32768, 33001, 40000, 65535, 65536, 70001]), "x": rng.randint(-500, 500), "id": rng.choice([1, 101, 5000])}, "w": gen_wcfg(rng), "r": gen_rcfg(rng)}
    s = objs.gen_obj(rng, "level", rng.choice([1, 2, 2]), 0.004, 0.05)
    return roundtrip.gen_plan(rng, s, "level")


def run_many(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.entity import Entity
    from dustmaker.level import Level
    from dustmaker.prop import Prop

    m = plan["many"]
    n = m["n"]
    if not 0 < n <= 80000 or plan["w"].get("faults") or plan["r"].get("faults"):
        raise InvalidPlan("crowd")
    lv = Level()
    want = {}
    for i in range(n):
        num = m["id"] + i
        if m["k"] == "prop":
            lv.add_prop(3 + i % 3, float(m["x"]), float(i % 5), Prop(i % 7, 0, False, i % 2 == 0, 1.0, i % 5, 1, 1, i % 11), num)
            want[num] = (3 + i % 3, m["x"], i % 5, i % 7, i % 2 == 0, i % 5, i % 11)
        else:
            lv.add_entity(float(m["x"]), float(i % 5), Entity(rotation=i % 7, flip_x=i % 2 == 0), num)
            want[num] = (m["x"], i % 5, i % 7, i % 2 == 0)
    # coarse deliveries, the data is large
    w = {k: v for k, v in plan["w"].items() if k != "wchunks"}
    r = {k: v for k, v in plan["r"].items() if k != "rchunks"}
    h = open_stream(world, Store(), w, "w")

    def go():
        with DFWriter(h.f) as wr:
            wr.write_level(lv)

    out = attempt(go)
    if not out.ok:
        if n <= 65535:
            raise Violation("unexpected-error", f"saving {n} {m['k']} objects in one segment {out.describe()}")
        world.probe("crowd-refused")
        return
    data = stored(h)
    rh = open_stream(world, Store(data), r, "r")

    def back():
        with DFReader(rh.f) as rd:
            return rd.read_level()

    got = must(back, f"reloading {n} {m['k']} objects")
    if m["k"] == "prop":
        have = {i: (l, int(x), int(y), p.layer_sub, p.flip_y, p.prop_set, p.palette) for i, (l, x, y, p) in got.props.items()}
    else:
        have = {i: (int(x), int(y), e.rotation, e.flip_x) for i, (x, y, e) in got.entities.items()}
    world.probe("crowd-" + m["k"])
    if have != want:
        bad = [i for i in want if have.get(i) != want[i]]
        raise Violation("content", f"of {n} {m['k']} objects in one segment, {len(have)} came back, {len(bad)} missing or changed, first {bad[:1]}")
    dec = rc.dec_level(data)[0]
    if len(dec["props"]) + len(dec["entities"]) != n:
        raise Violation("content", f"an independent decoder finds {len(dec['props'])} props and {len(dec['entities'])} entities instead of {n}")


def run(plan, world):
    if plan.get("many"):
        run_many(plan, world)
        return
    from dustmaker.dfreader import read_level
    from dustmaker.dfwriter import write_level

    roundtrip.run(plan, world, ("level",))
    if plan.get("wild"):
        return
    # the in-memory convenience functions
    s = {**plan["spec"], "vars": roundtrip.expand(plan["spec"]["vars"])}
    lv = objs.build("level", s)
    data = must(write_level, "write_level", lv)
    got = must(read_level, "read_level", data)
    d = objs.diff("level", objs.canon("level", s), objs.observe("level", got))
    if d:
        raise Violation("content", f"read_level(write_level(level)): {d}")
