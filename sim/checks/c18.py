"""C18: IDs stay unique, fresh and consistently referenced across the level's life."""
import copy
import io

from .. import objs
from .. import refcodec as rc
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .roundtrip import gen_wfault

LEVEL = "exploration"
QUICK = 20000
THOROUGH = 500000
CHUNK = 40
RULE = "Each run drives up to three levels (some loaded from files of foreign tools with low or high stored next IDs) through a history of adding props, backdrop props and linked entities with automatic and explicit IDs, removing, remapping, merging, copying, recalculating, transforming, saving, failing and interrupted saves, metadata-only rewrites, reloads and crashes back to the last completed save. Every object carries a marker. Oracle, after every step: a reference model of which object lives under which ID, IDs returned are not in use, the stored next ID and the next ID assigned after a save, reload or rewrite never go backwards, refused IDs change nothing, links lead to the same marked entities."
REAL = ["dustmaker.level", "dustmaker.entity/prop/variable", "dustmaker.dfreader/dfwriter/bitio"]
STUB = ["raw stream and storage medium", "process death (in-memory state dropped)", "interrupt delivery"]
ASSUME = ["objects are added through add_prop, add_entity and merge, and removed by deleting the dictionary entry", "IDs stay below 2^31"]

LINKS = ("AI_controller", "camera_node", "level_end", "enemy_key", "vsim_user", "z_vsim_user", "custom_score_book")


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    starts = []
    for _ in range(n):
        if rng.random() < 0.4:
            ids = [rng.choice([1, 50, 99, 100, 101, 102, 103, 104, 105, 110, 150, 5000, 10**6]) for _ in range(rng.choice([0, 1, 3]))]
            starts.append({"props": sorted(set(ids)), "bd": sorted({rng.randint(100, 112) for _ in range(rng.choice([0, 1, 2]))}), "ents": sorted({rng.randint(100, 112) for _ in range(rng.choice([0, 1, 3]))}),
                           "uid": rng.choice([0, 1, 100, 101, 103, 107, 111, 200, 6000, None, None])})
        else:
            starts.append(None)
    ops = []
    # a few focused histories: much adding first, then structural operations
    mix = rng.choice([
        ("prop", "bdprop", "ent", "ent", "xprop", "xbd", "xent", "dup", "rm", "rm", "rmbig", "remap", "merge", "mergeraw", "copy", "max", "maxkeep", "raw", "flip", "save", "fail", "int", "reload", "crash", "meta", "link"),
        ("ent", "ent", "ent", "link", "link", "xent", "remap", "merge", "save", "reload", "rm"),
        ("prop", "bdprop", "ent", "rmbig", "save", "reload", "meta", "fail", "int", "crash", "maxkeep", "max", "raw"),
        ("bdprop", "xbd", "prop", "ent", "merge", "remap", "save", "reload", "dup", "copy"),
    ])
    for _ in range(rng.choice([3, 6, 12, 20, 35])):
        k = rng.choice(mix)
        op = {"op": k, "on": rng.randrange(n), "k": rng.randrange(10**6)}
        if k in ("xprop", "xbd", "xent"):
            op["id"] = rng.choice([rng.randint(95, 115), rng.randint(95, 115), rng.randint(1, 300), 1000, 10**6, rng.randint(1, 2**24)])
        if k in ("ent", "xent"):
            op["type"] = rng.choice(LINKS + ("enemy_light_prism", "z_mystery"))
            op["links"] = [rng.choice([rng.randrange(100), -1, 0]) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
        if k == "link":
            op["links"] = [rng.choice([rng.randrange(100), -1, 0]) for _ in range(rng.choice([0, 1, 2, 4]))]
        if k == "remap":
            op["min"] = rng.choice([None, None, 100, 1, 101, 105, 1000, 10**5])
        if k == "raw":
            op["gap"] = [rng.choice([1, 2, 3, 10]) for _ in range(3)]
        if k in ("merge", "mergeraw", "copy"):
            op["other"] = rng.randrange(n)
        if k == "fail":
            op["w"] = gen_wcfg(rng, layers=("raw", "buf", "duck"))
            gen_wfault(rng, op["w"])
        if k == "int":
            op["int"] = rng.choice(["interrupt", "memory"])
            op["when"] = rng.random()
        if k in ("save", "reload"):
            op["w"] = gen_wcfg(rng)
        if k in ("reload", "crash"):
            op["r"] = gen_rcfg(rng, forward=0.0)
        ops.append(op)
    return {"starts": starts, "ops": ops}


LINK_ATTR = {"AI_controller": "puppet", "camera_node": "nodes", "level_end": "entities", "enemy_key": "door", "vsim_user": "friend", "z_vsim_user": "friend", "custom_score_book": "level_list"}


def usable(e):
    a = LINK_ATTR.get(e.etype)
    if a and not hasattr(type(e), a):
        raise Violation("class", f"an entity of type {e.etype} is a {type(e).__name__} and its links cannot be reached")


def get_links(e):
    """Linked IDs by the public accessors."""
    usable(e)
    if e.etype == "AI_controller":
        return [e.puppet]
    if e.etype == "camera_node":
        return [int(x) for x in e.nodes]
    if e.etype == "level_end":
        return [int(x) for x in e.entities]
    if e.etype == "enemy_key":
        return [e.door]
    if e.etype in ("vsim_user", "z_vsim_user"):
        return [e.friend]
    if e.etype == "custom_score_book":
        return [e.level_list]
    return []


def set_links(e, ids):
    usable(e)
    if e.etype == "AI_controller":
        e.puppet = ids[0] if ids else 0
    elif e.etype == "camera_node":
        refill(e.nodes, ids)
    elif e.etype == "level_end":
        refill(e.entities, ids)
    elif e.etype == "enemy_key":
        e.door = ids[0] if ids else 0
    elif e.etype in ("vsim_user", "z_vsim_user"):
        e.friend = ids[0] if ids else 0
    elif e.etype == "custom_score_book":
        e.level_list = ids[0] if ids else 0


def refill(seq, ids):
    while len(seq):
        seq.pop()
    for i in ids:
        seq.append(i)


class Model:
    def __init__(self):
        self.props = {}  # id -> marker
        self.bd = {}
        self.ents = {}  # id -> (marker, type, [linked ids])

    def clone(self):
        m = Model()
        m.props, m.bd = dict(self.props), dict(self.bd)
        m.ents = {k: (a, b, list(c)) for k, (a, b, c) in self.ents.items()}
        return m

    def markers(self):
        return set(self.props.values()) | set(self.bd.values()) | {v[0] for v in self.ents.values()}

    def used(self):
        return set(self.props) | set(self.bd) | set(self.ents)


class Slot:
    def __init__(self, lv, m):
        self.lv, self.m = lv, m
        self.disk = None  # (bytes, model, next)


def observe(lv):
    m = Model()
    m.props = {i: p[3].rotation for i, p in lv.props.items()}
    m.bd = {i: p[3].rotation for i, p in lv.backdrop.props.items()}
    m.ents = {i: (e[2].rotation, e[2].etype, get_links(e[2])) for i, e in lv.entities.items()}
    return m


def same(a, b):
    for what, x, y in (("props", a.props, b.props), ("backdrop props", a.bd, b.bd), ("entities", a.ents, b.ents)):
        if x != y:
            bad = sorted(set(x.items() if what != "entities" else {(k, str(v)) for k, v in x.items()}) ^ set(y.items() if what != "entities" else {(k, str(v)) for k, v in y.items()}))
            return f"{what} (ID, object) differ: {str(bad)[:300]}"
    return None


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.entity import Entity
    from dustmaker.exceptions import LevelException
    from dustmaker.level import Level
    from dustmaker.prop import Prop

    count = [0]

    def mark():
        count[0] += 1
        return count[0]

    def new_prop():
        mk = mark()
        return mk, make_prop(Prop, mk)

    def new_ent(typ, ids):
        mk = mark()
        cls = entity_class(Entity, typ)
        e = cls()
        if cls is Entity:
            e.etype = typ
        e.rotation = mk
        set_links(e, ids)
        return mk, e, get_links(e)

    def peek(lv):
        return must(lambda: copy.deepcopy(lv).add_prop(0, 0.0, 0.0, make_prop(Prop, 0)), "adding a prop to a copy")

    def load(data, cfg):
        h = open_stream(world, Store(data), cfg or {"layer": "bytesio"}, "r")
        return must(lambda: DFReader(h.f).read_level(), "loading")

    def save(lv, cfg):
        h = open_stream(world, Store(), cfg, "w")

        def go():
            with DFWriter(h.f) as w:
                w.write_level(lv)

        out = attempt(go)
        data = stored(h)
        if h.raw is not None:
            h.raw.fl.armed = False
            attempt(h.f.close)
        return out, data

    slots = []
    for st in plan["starts"]:
        m = Model()
        if st is None:
            slots.append(Slot(Level(), m))
            continue
        s = {"props": [], "entities": [], "bd_props": [], "tiles": [], "bd_tiles": [], "vars": [], "sshot": ""}
        for i in st["props"]:
            m.props[i] = mark()
            s["props"].append([i, 3, 0.0, 0.0, 0, m.props[i], 1, 1, 32, 1, 1, 1, 0])
        for i in st["bd"]:
            m.bd[i] = mark()
            s["bd_props"].append([i, 3, 0.0, 0.0, 0, m.bd[i], 1, 1, 32, 1, 1, 1, 0])
        for i in st["ents"]:
            mk = mark()
            m.ents[i] = (mk, "AI_controller", [st["ents"][0]])
            s["entities"].append([i, 0.0, 0.0, "AI_controller", [["puppet_id", ["u", st["ents"][0]]]], mk, 0, 0, 0, 1])
        opt = {} if st["uid"] is None else {"uid": st["uid"]}
        data = rc.enc_level(s, opt)
        sl = Slot(load(data, None), m)
        slots.append(sl)

    def check(where):
        for j, sl in enumerate(slots):
            d = same(sl.m, observe(sl.lv))
            if d:
                raise Violation("objects", f"after {where}, level {j}: {d}")

    check("loading")

    def resolve(m, links):
        """Plan link indices to IDs of present entities (or none)."""
        ids = sorted(m.ents)
        return [ids[x % len(ids)] if x > 0 and ids else (0 if x == 0 else 777777777) for x in links]

    def added(sl, kind, got, explicit, table, value, where):
        if explicit is not None:
            if got != explicit:
                raise Violation("explicit-id", f"{where}: asked for ID {explicit}, got {got}")
        elif got in sl.m.used():
            raise Violation("id-in-use", f"{where}: new {kind} was given ID {got}, which is in use")
        table[got] = value

    def remapped(sl, before, where, keep=()):
        """Learn the new IDs of the objects known from `before` and check them."""
        now = observe(sl.lv)
        for what, x, y in (("prop", before.props, now.props), ("backdrop prop", before.bd, now.bd)):
            if sorted(x.values()) != sorted(y.values()):
                raise Violation("lost", f"{where}: {what}s {sorted(x.values())} became {sorted(y.values())}")
        if sorted(v[:2] for v in before.ents.values()) != sorted(v[:2] for v in now.ents.values()):
            raise Violation("lost", f"{where}: entities {sorted(v[:2] for v in before.ents.values())} became {sorted(v[:2] for v in now.ents.values())}")
        return now

    def check_links(group_before, now, where):
        """Links inside one group of entities lead to the same markers."""
        new_id = {v[0]: i for i, v in now.ents.items()}
        for i, (mk, typ, links) in group_before.ents.items():
            after = now.ents[new_id[mk]][2]
            if len(after) != len(links):
                raise Violation("links", f"{where}: {typ} had {len(links)} links and now has {len(after)}")
            for a, b in zip(links, after):
                if a in group_before.ents:
                    tgt = group_before.ents[a][0]
                    if b != new_id[tgt]:
                        raise Violation("links", f"{where}: link of {typ} to entity {tgt} (ID {a}, now {new_id[tgt]}) now points to ID {b}")
                    world.probe("links-followed")

    def distinct(now, where, allowed):
        seen = {}
        for kind, t in (("prop", now.props), ("backdrop prop", now.bd), ("entity", {k: v[0] for k, v in now.ents.items()})):
            for i, mk in t.items():
                if i in seen and frozenset((mk, seen[i])) not in allowed:
                    raise Violation("not-distinct", f"{where}: two objects share ID {i}")
                seen[i] = mk

    def clashes(m):
        out = set()
        tabs = (m.props, m.bd, {k: v[0] for k, v in m.ents.items()})
        for x in range(3):
            for y in range(x + 1, 3):
                for i in set(tabs[x]) & set(tabs[y]):
                    out.add(frozenset((tabs[x][i], tabs[y][i])))
        return out

    def on_disk(data, sl, before, where):
        try:
            got, info = rc.dec_level(data, 0, True)
        except rc.FormatError as e:
            raise Violation("inconsistent", f"{where}: {e}") from None
        uid = stored_uid(data)
        top = max([0] + list(sl.m.used()))
        if uid <= top:
            raise Violation("stored-next", f"{where}: the file says the next ID is {uid} although ID {top} is in use")
        if uid < before:
            raise Violation("stored-next", f"{where}: the file says the next ID is {uid} although the next one would be {before}")

    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        sl = slots[op["on"] % len(slots)]
        lv, m = sl.lv, sl.m
        where = f"step {n} ({k})"
        world.log(n, k, op["on"])
        if k in ("prop", "xprop"):
            mk, p = new_prop()
            i = op.get("id")
            if i is not None and i in m.props:
                continue
            out = attempt(lv.add_prop, 3, 0.0, 0.0, p, i)
            if not out.ok:
                if i is not None and i in m.used() and isinstance(out.exc, LevelException):
                    continue
                raise Violation("unexpected-error", f"{where}: {out.describe()}")
            added(sl, "prop", out.value, i, m.props, mk, where)
        elif k in ("bdprop", "xbd"):
            mk, p = new_prop()
            i = op.get("id")
            if i is not None and i in m.bd:
                continue
            out = attempt(lv.backdrop.add_prop, 3, 0.0, 0.0, p, i)
            if not out.ok:
                if i is not None and i in m.used() and isinstance(out.exc, LevelException):
                    continue
                raise Violation("unexpected-error", f"{where}: {out.describe()}")
            added(sl, "backdrop prop", out.value, i, m.bd, mk, where)
        elif k in ("ent", "xent"):
            mk, e, links = new_ent(op["type"], resolve(m, op["links"]))
            i = op.get("id")
            if i is not None and i in m.ents:
                continue
            out = attempt(lv.add_entity, 0.0, 0.0, e, i)
            if not out.ok:
                if i is not None and i in m.used() and isinstance(out.exc, LevelException):
                    continue
                raise Violation("unexpected-error", f"{where}: {out.describe()}")
            added(sl, "entity", out.value, i, m.ents, (mk, e.etype, links), where)
        elif k == "link":
            if m.ents:
                i = sorted(m.ents)[op["k"] % len(m.ents)]
                e = lv.entities[i][2]
                must(set_links, "changing links", e, resolve(m, op["links"]))
                m.ents[i] = (*m.ents[i][:2], get_links(e))
        elif k == "dup":
            which = [(m.props, lv), (m.bd, lv.backdrop), (m.ents, lv)][op["k"] % 3]
            if not which[0]:
                continue
            i = sorted(which[0])[op["k"] // 3 % len(which[0])]
            nxt = peek(lv)
            if which[0] is m.ents:
                # someone else's ID, or the object's own
                out = attempt(lv.add_entity, 1.0, 1.0, lv.entities[i][2] if op["k"] % 4 == 1 else Entity(), i)
            else:
                out = attempt(which[1].add_prop, 1, 1.0, 1.0, which[1].props[i][3] if op["k"] % 4 == 1 else make_prop(Prop, 60000), i)
            if out.ok:
                raise Violation("duplicate-accepted", f"{where}: ID {i} is in use but was accepted")
            if not isinstance(out.exc, LevelException):
                raise Violation("duplicate-error", f"{where}: ID {i} is in use; {out.describe()} instead of LevelException")
            if peek(lv) != nxt:
                raise Violation("duplicate-disturbs", f"{where}: the refused ID {i} moved the next ID from {nxt} to {peek(lv)}")
            world.probe("duplicate-refused")
        elif k in ("rm", "rmbig"):
            if not m.used():
                continue
            ids = sorted(m.used())
            i = ids[-1] if k == "rmbig" else ids[op["k"] % len(ids)]
            for t, w in ((m.props, lv.props), (m.bd, lv.backdrop.props), (m.ents, lv.entities)):
                if i in t:
                    del t[i], w[i]
                    break
        elif k == "remap":
            before = m.clone()
            if op["min"] is not None and op["min"] < 1:
                raise InvalidPlan("ID 0 means no entity")
            if op["min"] is None:
                must(lv.remap_ids, where)
            else:
                must(lv.remap_ids, where, op["min"])
            lo = 100 if op["min"] is None else op["min"]
            now = remapped(sl, before, where)
            distinct(now, where, set())
            if now.used() and min(now.used()) < lo:
                raise Violation("remap-range", f"{where}: ID {min(now.used())} is below the requested {lo}")
            check_links(before, now, where)
            for i, (mk, typ, links) in before.ents.items():
                j = next(x for x, v in now.ents.items() if v[0] == mk)
                for a, b in zip(links, now.ents[j][2]):
                    if a not in before.ents and b in now.ents:
                        raise Violation("links", f"{where}: a link to no entity ({a}) now leads to entity {b}")
            sl.m = now
        elif k in ("merge", "mergeraw"):
            other = slots[op["other"] % len(slots)]
            if other is sl:
                continue
            before, ob = m.clone(), other.m.clone()
            if before.markers() & ob.markers():
                continue  # merged before: the markers could not tell the two apart
            must(lv.merge, where, other.lv, remap_ids=k == "merge")
            if k == "mergeraw":
                for a, b in ((m.props, ob.props), (m.bd, ob.bd), (m.ents, ob.ents)):
                    a.update(b)
            else:
                both = Model()
                both.props = list_model(before.props, ob.props)
                both.bd = list_model(before.bd, ob.bd)
                both.ents = list_model(before.ents, ob.ents)
                now = remapped(sl, both, where)
                distinct(now, where, clashes(ob))
                check_links(before, now, where)
                check_links(ob, now, where)
                world.probe("merged")
                sl.m = now
        elif k == "copy":
            j = op["other"] % len(slots)
            if slots[j] is sl:
                continue
            ns = Slot(must(copy.deepcopy, where, lv), m.clone())
            # give the copy markers of its own, so that the two can be merged
            for i, p in ns.lv.props.items():
                ns.m.props[i] = p[3].rotation = mark()
            for i, p in ns.lv.backdrop.props.items():
                ns.m.bd[i] = p[3].rotation = mark()
            for i, e in ns.lv.entities.items():
                e[2].rotation = mark()
                ns.m.ents[i] = (e[2].rotation, *ns.m.ents[i][1:])
            slots[j] = ns
        elif k == "raw":
            # objects put into the tables directly (a script that builds a level from pieces),
            # after which the level is asked to take note of them
            for q in range(1 + op["k"] % 3):
                top = max([100] + list(m.used())) + op["gap"][q % len(op["gap"])]
                if (op["k"] >> q) & 1:
                    mk, p = new_prop()
                    (lv if op["k"] & 8 else lv.backdrop).props[top] = (3, 0.0, 0.0, p)
                    (m.props if op["k"] & 8 else m.bd)[top] = mk
                else:
                    mk, e, links = new_ent("AI_controller", resolve(m, [0]))
                    lv.entities[top] = (0.0, 0.0, e)
                    m.ents[top] = (mk, e.etype, links)
            must(lv.calculate_max_id, where, reset=bool(op["k"] & 16))
            if peek(lv) in m.used():
                raise Violation("id-in-use", f"{where}: the next ID {peek(lv)} is in use although the maximum was recalculated")
            world.probe("recalculated")
        elif k in ("max", "maxkeep"):
            nxt = peek(lv)
            if k == "max" and op["k"] & 1:
                top = must(lv.calculate_max_id, where)  # resetting is the default
            else:
                top = must(lv.calculate_max_id, where, reset=k == "max")
            if k == "max" and top != max([100] + list(m.used())):
                raise Violation("max-id", f"{where}: calculate_max_id gives {top} instead of {max([100] + list(m.used()))}")
            if k == "max" and peek(lv) != top + 1:
                raise Violation("max-id", f"{where}: the next ID is {peek(lv)} after resetting it on a maximum of {top}")
            if top < max([0] + list(m.used())):
                raise Violation("max-id", f"{where}: calculate_max_id gives {top} although ID {max(m.used())} is in use")
            if k == "maxkeep" and (peek(lv) < nxt or top < nxt - 1):
                raise Violation("rewound", f"{where}: next ID was {nxt}, is now {peek(lv)} (maximum {top})")
        elif k == "flip":
            must([lv.flip_horizontal, lv.flip_vertical, lambda: lv.translate(48, 48)][op["k"] % 3], where)
            for i, p in lv.props.items():
                p[3].rotation = m.props.get(i, 0)
            for i, p in lv.backdrop.props.items():
                p[3].rotation = m.bd.get(i, 0)
            for i, e in lv.entities.items():
                e[2].rotation = m.ents.get(i, (0,))[0]
        elif k in ("save", "fail", "int", "reload"):
            nxt = peek(lv)
            if k == "int":
                if op["int"] not in INTERRUPTS:
                    raise InvalidPlan("int")
                with LineTracer() as tr:
                    attempt(lambda: objs.plain_save("level", copy.deepcopy(lv), {}))
                with LineTracer(raise_at=1 + int(op["when"] * tr.n), exc=INTERRUPTS[op["int"]]()) as tr:
                    attempt(lambda: objs.plain_save("level", lv, {}))
                if tr.fired:
                    world.fault(op["int"] + "@save")
            else:
                out, data = save(lv, op["w"])
                if not out.ok and k != "fail":
                    raise Violation("unexpected-error", f"{where}: {out.describe()}")
                if out.ok:
                    on_disk(data, sl, nxt, where)
                    sl.disk = (data, sl.m.clone(), nxt)
            if k == "reload":
                sl.lv = lv = load(sl.disk[0], op["r"])
                world.fault("reload")
            if peek(lv) < nxt:
                raise Violation("rewound", f"{where}: the next ID went back from {nxt} to {peek(lv)}")
        elif k == "crash":
            if sl.disk is None:
                continue
            data, dm, nxt = sl.disk
            sl.lv, sl.m = load(data, op["r"]), dm.clone()
            world.fault("crash")
            if peek(sl.lv) < nxt:
                raise Violation("rewound", f"{where}: the next ID went back from {nxt} to {peek(sl.lv)} over save and load")
        elif k == "meta":
            if sl.disk is None:
                continue
            data, dm, nxt = sl.disk

            def rewrite():
                r = DFReader(io.BytesIO(data))
                meta, offs = r.read_level_ex()
                reg = r.read_bytes(offs[-1])
                meta.name = b"n%d" % n
                o = io.BytesIO()
                with DFWriter(o, noclose=True) as w:
                    w.write_level_ex(meta, offs, reg)
                return o.getvalue()

            new = must(rewrite, where)
            if stored_uid(new) < stored_uid(data):
                raise Violation("stored-next", f"{where}: a metadata-only rewrite took the stored next ID from {stored_uid(data)} back to {stored_uid(new)}")
            world.fault("metadata-rewrite")
            sl.disk = (new, dm, nxt)
        else:
            raise InvalidPlan(k)
        if any(max([0] + list(x.m.used())) > 2**30 for x in slots):
            raise InvalidPlan("IDs beyond the file format")
        check(where)


def list_model(a, b):
    """Union of two ID tables whose IDs may collide (only the values matter)."""
    out = {("a", k): v for k, v in a.items()}
    out.update({("b", k): v for k, v in b.items()})
    return out


def stored_uid(data):
    return int.from_bytes(data[16 + 6 + 2 + 4 : 16 + 6 + 2 + 8], "little")


def make_prop(Prop, mk):
    return Prop(0, mk, True, True, 1, 1, 1, 1, 0)


def entity_class(Entity, typ):
    todo = [Entity]
    while todo:
        c = todo.pop()
        if c.__dict__.get("TYPE_IDENTIFIER") == typ:
            return c
        todo += c.__subclasses__()
    return Entity
