"""C08: variables whose save succeeded reload as the same variables."""
from .. import objs
from .. import spec as sp
from ..kernel import InvalidPlan, Violation, attempt, must
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from . import roundtrip

LEVEL = "exploration"
QUICK = 11000
THOROUGH = 800000
CHUNK = 60
RULE = "Each run draws a variable tree (all types, nested arrays and structs, strings around multiples of 65535 bytes), saves it as a variable file or as bare variables at drawn bit positions between other values, through drawn storage with failed attempts before the good one, and reads it back through drawn streams. In some runs one value is more than the format can hold: then the save has to raise or keep it. Oracle: whatever reported success reads back as the reference model's tree, keys in order; files are also decoded by an independent decoder."
REAL = ["dustmaker.dfwriter", "dustmaker.dfreader", "dustmaker.bitio", "dustmaker.variable", "io.Buffered* when drawn"]
STUB = ["raw streams and storage medium"]
ASSUME = ["float resolution 2^-31"]


def gen(rng, tier):
    big = 0.03 if rng.random() < 0.15 else 0.0
    if rng.random() < 0.015:
        # strings that are stored in several chunks, next to others
        arr = [["s", sp.gen_bytes(rng, rng.choice([0.0, 0.3, 1.0]))] for _ in range(rng.randint(1, 3))]
        arr.insert(rng.randint(0, len(arr)), ["s", {"n": rng.choice([65535, 65535, 131070, 65534, 65536]), "k": rng.randrange(256)}])
        if rng.random() < 0.5:
            v = ["a", "s", arr]
        else:
            v = ["t", [[f"k{i}", x] for i, x in enumerate(arr)] + [["z", sp.gen_var(rng, 1)]]]
        return {"kind": "bare", "items": [["bits", 8, 1], ["var", v], ["bits", 5, 17]], "w": {"layer": "bytesio"}, "bad": None, "reads": [gen_rcfg(rng)]}
    if rng.random() < 0.4:
        return roundtrip.gen_plan(rng, objs.gen_obj(rng, "var", big=big, dense=0.008), "var")
    items = []
    for _ in range(rng.randint(1, 6)):
        k = rng.random()
        if k < 0.3:
            w = rng.randint(1, 33)
            items.append(["bits", w, rng.getrandbits(w)])
        elif k < 0.4:
            items.append(["str6", sp.gen_key(rng)])
        elif k < 0.5:
            items.append(["map", sp.gen_vmap(rng, rng.choice([0, 1, 3]), 3, big)])
        else:
            v = sp.gen_dense_var(rng) if rng.random() < 0.004 else sp.gen_var(rng, 3, big)
            items.append(["var", v])
    fwd = rng.random() < 0.3
    wcfg = gen_wcfg(rng)
    if wcfg["layer"] != "bytesio" and fwd:
        wcfg["seekable"] = False
        wcfg.pop("rw", None)
    bad = gen_wcfg(rng)
    roundtrip.gen_wfault(rng, bad)
    return {"kind": "bare", "items": items, "w": wcfg, "bad": bad if rng.random() < 0.4 else None, "reads": [gen_rcfg(rng) for _ in range(2)]}


def run(plan, world):
    if plan["kind"] != "bare":
        return roundtrip.run(plan, world, ("var",))
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.variable import VariableStruct, VariableType

    items = plan["items"]
    built = []
    for it in items:
        if it[0] == "var":
            if it[1][0] == "s" and len(sp.xbytes(it[1][1])) > 65535:
                built.append(None)
            else:
                built.append(sp.build_var(it[1]))
        elif it[0] == "map":
            built.append(VariableStruct(sp.build_vmap(it[1])))
        else:
            built.append(None)

    def write(f):
        with DFWriter(f) as w:
            for it, b in zip(items, built):
                if it[0] == "bits":
                    if it[1] < 1:
                        raise InvalidPlan("width")
                    w.write(it[1], it[2] & ((1 << it[1]) - 1))
                elif it[0] == "str6":
                    w.write_6bit_str(it[1])
                elif b is not None:
                    if w.bit_tell() % 8:
                        world.probe("unaligned-variable")
                    w.write_variable(b)

    if plan.get("bad"):
        h = open_stream(world, Store(), plan["bad"], "w")
        out = attempt(write, h.f)
        world.log("first save", out.ok, h.fired())
        if not out.ok and not h.fired():
            raise Violation("unexpected-error", f"writing variables {out.describe()}")
    h = open_stream(world, Store(), plan["w"], "w")
    must(write, "writing variables", h.f)
    data = stored(h)
    for cfg in plan["reads"]:
        rh = open_stream(world, Store(data), cfg, "r")
        with DFReader(rh.f) as r:
            for i, (it, b) in enumerate(zip(items, built)):
                if it[0] == "bits":
                    want = it[2] & ((1 << it[1]) - 1)
                    got = must(r.read, f"item {i}", it[1])
                    if got != want:
                        raise Violation("content", f"item {i}: {it[1]}-bit value {want} reads back as {got}")
                elif it[0] == "str6":
                    got = must(r.read_6bit_str, f"item {i}")
                    if got != it[1]:
                        raise Violation("content", f"item {i}: 6-bit string {it[1]!r} reads back as {got!r}")
                elif it[0] == "map":
                    got = sp.observe_vmap(must(r.read_variable_map, f"item {i}"))
                    d = sp.diff_vmap(sp.canon_vmap(it[1]), got)
                    if d:
                        raise Violation("content", f"item {i}: {d}")
                elif b is not None:
                    got = sp.observe_var(must(r.read_variable, f"item {i}", VariableType(sp.VT[it[1][0]])))
                    d = sp.diff_var(sp.canon_var(it[1]), got)
                    if d:
                        raise Violation("content", f"item {i}: {d}")
        world.log("read", len(items))
