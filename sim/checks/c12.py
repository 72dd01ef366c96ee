"""C12: saving never changes the object, even when it fails or is interrupted."""
import copy
import io

from .. import objs
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must
from ..streams import Store, gen_wcfg, open_stream
from .roundtrip import gen_wfault

LEVEL = "fault_enumeration"
QUICK = 6000
THOROUGH = 300000
CHUNK = 40
RULE = "Each run builds an object twice, saves the twin undisturbed, and the object several times under drawn disturbances: storage errors, full disk, and asynchronous interrupts or failing allocations raised at a drawn executed line of dustmaker. Oracle: after every attempt the object is observably what it was, and a save to healthy storage gives the twin's bytes."
REAL = ["dustmaker.dfwriter", "dustmaker.bitio", "dustmaker.level/tile/prop/entity/variable/replay"]
STUB = ["raw stream and storage medium", "signal delivery and allocation failure (raised at a chosen executed line)"]


def gen(rng, tier):
    kind = rng.choice(["level", "level", "var", "replay"])
    s = objs.gen_obj(rng, kind, rng.choice([1, 1, 2]))
    how = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < 0.55:
            how.append({"int": rng.choice(["interrupt", "memory"]), "at": rng.random()})
        elif k < 0.85:
            cfg = gen_wcfg(rng, layers=("raw", "buf", "duck"))
            gen_wfault(rng, cfg)
            how.append({"cfg": cfg})
        else:
            how.append({"cfg": {"layer": "bytesio"}})
    return {"kind": kind, "spec": s, "how": how, "loaded": rng.random() < 0.4, "drop": [rng.choice([1, 2]) for _ in range(rng.choice([0, 0, 1, 2]))]}


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.entity import Entity

    kind, s = plan["kind"], plan["spec"]
    objs.check_kind(kind)
    objs.canon(kind, s)

    def make():
        if plan.get("loaded"):
            data = objs.encode(kind, s)
            return must(lambda: objs.load(DFReader(io.BytesIO(data)), kind, s, None), "loading")
        return objs.build(kind, s)

    def ordered(o):
        # dict order of entities matters for the bytes, so observe it as well
        v = objs.observe(kind, o, False) if kind == "level" else objs.observe(kind, o)
        return objs.frz(v), objs.snapshot(o)

    def next_id(o):
        if kind != "level":
            return 0
        return must(lambda: copy.deepcopy(o).add_entity(0.0, 0.0, Entity()), "adding an entity to a copy")

    twin = make()
    obj = make()
    for k in plan.get("drop", ()) if kind == "level" else ():
        # the object with the highest ID, or all, removed before the save: IDs given out stay given out
        for o in (twin, obj):
            for t in (o.props, o.entities, o.backdrop.props):
                if t and (k == 2 or max(t) == max([*o.props, *o.entities, *o.backdrop.props])):
                    del t[max(t)]
    nxt = next_id(obj)
    before = ordered(obj)
    lines = None
    with LineTracer() as tr:
        want = must(objs.plain_save, "saving", kind, twin, s)
    lines = tr.n
    if ordered(twin) != before:
        raise Violation("changed", f"a successful save changed the {kind}")
    if next_id(twin) < nxt:
        raise Violation("changed", f"a successful save took the next ID from {nxt} back to {next_id(twin)}")
    for i, t in enumerate(plan["how"]):
        if "int" in t:
            if t["int"] not in INTERRUPTS:
                raise InvalidPlan("interrupt")
            out_io = io.BytesIO()

            def go():
                with DFWriter(out_io, noclose=True) as w:
                    objs.save(w, kind, obj, s)

            with LineTracer(raise_at=1 + int(t["at"] * lines), exc=INTERRUPTS[t["int"]]()) as tr:
                out = attempt(go)
            if tr.fired:
                world.fault(t["int"])
                world.probe("at-" + tr.fired[1])
            elif not out.ok:
                raise Violation("unexpected-error", f"undisturbed save {out.describe()}")
            world.log(i, "interrupt", out.ok, tr.n)
            if out.ok and not tr.fired and out_io.getvalue() != want:
                raise Violation("differs", f"save {i} of the {kind} gives other bytes than an undisturbed save")
        else:
            h = open_stream(world, Store(), t["cfg"], "w")

            def go2():
                with DFWriter(h.f) as w:
                    objs.save(w, kind, obj, s)

            out = attempt(go2)
            fired = h.fired()
            world.log(i, "save", out.ok, fired)
            if not out.ok and not fired:
                raise Violation("unexpected-error", f"save {i} {out.describe()}")
            if h.raw is not None:
                h.raw.fl.armed = False
                attempt(h.f.close)
        now = ordered(obj)
        if now != before:
            from .c03 import first_diff

            raise Violation("changed", f"the {kind} was changed by save {i} that {'succeeded' if out.ok else 'failed'}: {first_diff(before[0], now[0]) if now[0] != before[0] else first_diff(repr(before[1]), repr(now[1]))}")
        if next_id(obj) < nxt:
            raise Violation("changed", f"save {i} that {'succeeded' if out.ok else 'failed'} took the next ID from {nxt} back to {next_id(obj)}")
        nxt = next_id(obj)
        if not out.ok:
            world.probe("failed-save")
    final = must(objs.plain_save, f"saving the {kind} again to healthy storage", kind, obj, s)
    if final != want:
        k = next((j for j, (a, b) in enumerate(zip(final, want)) if a != b), min(len(final), len(want)))
        raise Violation("differs", f"after disturbed saves the {kind} saves as {len(final)} bytes differing at byte {k} from the {len(want)} of an undisturbed save")
