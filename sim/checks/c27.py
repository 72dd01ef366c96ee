"""C27: typed attributes always show the stored variables, across edits, saves and reloads."""
import copy

from .. import spec as sp
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .roundtrip import gen_wfault

LEVEL = "exploration"
QUICK = 20000
THOROUGH = 400000
CHUNK = 40
RULE = "Each run drives one level with entities of drawn classes through a history of reading, setting and deleting typed attributes (level name, type, start positions; every documented attribute of every entity class), setting them to values that cannot be stored, changing the same variables in the raw mapping (also to other types), replacing the whole mapping, changing array attributes through the attribute and through views obtained earlier, normalising fog triggers, building entities from the variables of others, copying, and in between saves, failing and interrupted saves, reloads and crashes back to the last completed save. Oracle, after every step and for every object: a reference model of the stored variables; each attribute reads as the stored variable of its type, as its default when there is none, and is refused when another type is stored; nothing else changed."
REAL = ["dustmaker.entity/level/variable", "dustmaker.dfreader/dfwriter/bitio"]
STUB = ["raw stream and storage medium", "process death (in-memory state dropped)", "interrupt delivery"]
ASSUME = ["values are ones the file format can represent exactly", "array attributes are assigned VariableArray objects of their element type"]

SC = {"scale": ("dm_scale", "f", 1.0)}
ATTRS = {
    "level": {"name": ("level_name", "s", b""), "virtual_character": ("vector_character", "b", False), "level_type": ("level_type", "i", 0), "dustmod_version": ("dustmod_version", "s", b"")},
    "entity_emitter": {"e_rotation": ("e_rotation", "i", 0), "draw_depth_sub": ("draw_depth_sub", "u", 0), "r_rotation": ("r_rotation", "b", False), "r_area": ("r_area", "b", False),
                       "width": ("width", "i", 480), "height": ("height", "i", 480), "emitter_id": ("emitter_id", "u", 0)},
    "check_point": {"trigger_areas": ("trigger_area", "v", None)},
    "level_end_prox": {"trigger_areas": ("trigger_area", "v", None), "finished": ("finished", "b", False)},
    "base_trigger": {"width": ("width", "i", 500)},
    "special_trigger": {"width": ("width", "i", 500)},
    "fog_trigger": {"width": ("width", "i", 500), "speed": ("fog_speed", "f", 5.0), "gradient": ("gradient", "u", None), "gradient_middle": ("gradient_middle", "f", 0.0), "star_bottom": ("star_bottom", "f", 0.0),
                    "star_middle": ("star_middle", "f", 0.4), "star_top": ("star_top", "f", 1.0), "has_sub_layers": ("has_sub_layers", "b", False), "colours": ("fog_colour", "u", None), "pers": ("fog_per", "f", None)},
    "ambience_trigger": {"width": ("width", "i", 500), "speed": ("ambience_speed", "f", 5.0), "sound_names": ("sound_ambience_names", "s", None), "sound_vols": ("sound_ambience_vol", "f", None)},
    "music_trigger": {"width": ("width", "i", 500), "speed": ("music_speed", "f", 5.0), "sound_names": ("sound_music_names", "s", None), "sound_vols": ("sound_music_vol", "f", None)},
    "text_trigger": {"hide": ("hide", "b", False), "text": ("text_string", "s", b"")},
    "kill_box": {"width": ("width", "i", 0), "height": ("height", "i", 0)},
    "AI_controller": {"nodes": ("nodes", "v", None), "node_wait_times": ("nodes_wait_time", "i", None), "puppet": ("puppet_id", "u", 0)},
    "camera_node": {"node_type": ("node_type", "i", 1), "test_widths": ("test_widths", "i", None), "nodes": ("c_node_ids", "u", None), "control_widths": ("control_widths", "v", None), "zoom": ("zoom_h", "i", 1080), "width": ("width", "i", 520)},
    "level_end": {"entities": ("ent_list", "u", None), "finished": ("finished", "b", False)},
    "score_book": {"book_type": ("book_type", "s", b"")},
    "level_door": {"width": ("width", "i", 500), "file_name": ("file_name", "s", b""), "door_set": ("door_set", "i", 0)},
    "giga_gate": {"keys_needed": ("key_needed", "i", 1)},
    "enemy_bear": SC, "enemy_door": SC, "hittable_apple": SC, "dust_man": SC, "slime_boss": SC,
    "enemy_trash_tire": {**SC, "max_fall_speed": ("max_fall_speed", "f", 800.0)},
    "enemy_key": {**SC, "door": ("door", "u", 0), "lastX": ("lastKnowX", "f", 0.0), "lastY": ("lastKnowY", "f", 0.0)},
    "custom_score_book": {"level_list": ("level_list_id", "i", 0)},
    "z_string_list": {"width": ("width", "i", 500), "data": ("list", "s", None)},
}
ETYPES = tuple(t for t in ATTRS if t != "level")
BAD = {"b": ["i", "s"], "i": ["s", "big", "f"], "u": ["neg", "s", "big"], "f": ["s", "i"], "s": ["i", "str"], "v": ["f", "s"]}


def gen_val(rng, t):
    """A value of a type, as it is in a spec (JSON)."""
    if t == "f":
        return ["f", rng.randint(-(2**20), 2**20) / 1024.0]
    if t == "v":
        return ["v", [rng.randint(-(2**20), 2**20) / 1024.0, float(rng.randint(-5000, 5000))]]
    if t == "s":
        return ["s", rng.choice(["", "x", "abc\xff\x00", {"n": rng.choice([5, 300, 65535, 65536, 70000]) if rng.random() < 0.1 else 3, "k": rng.randrange(200)}])]
    return sp.gen_var_of(rng, t, 0)


OPS = ("get", "set", "set", "set", "again", "del", "bad", "raw", "rawdel", "rawother", "swap", "arr", "arr", "arr", "assign", "hold", "view", "view", "norm", "fog", "clone", "copy", "add", "start", "save", "fail", "int", "reload", "crash")


def gen(rng, tier):
    types = [rng.choice(ETYPES) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.3:
        types = [types[0]] * len(types)
    mix = rng.choice([OPS, OPS, ("set", "again", "del", "get", "swap", "raw", "rawother", "bad", "save", "reload", "crash"), ("arr", "hold", "view", "view", "assign", "del", "save", "fail", "reload", "clone"), ("norm", "fog", "arr", "set", "save", "reload")])
    if "fog" in mix and rng.random() < 0.5:
        types[0] = "fog_trigger"
    ops = []
    for _ in range(rng.choice([2, 5, 10, 20])):
        k = rng.choice(mix)
        op = {"op": k, "on": rng.randrange(-1, len(types) + 1), "k": rng.randrange(1000)}
        if k in ("set", "raw", "rawother", "arr", "view", "assign", "bad"):
            op["vals"] = {t: [gen_val(rng, t) for _ in range(2)] for t in "biufsv"}
        if k in ("arr", "view"):
            op["how"] = rng.choice(["append", "append", "append", "pop", "insert", "setitem", "delitem", "extend", "clear", "reverse", "remove", "iadd"])
        if k == "add":
            op["type"] = rng.choice(ETYPES)
        if k == "rawother":
            op["t"] = rng.choice("biufsvt")
        if k == "start":
            op["pl"], op["xy"] = rng.randint(1, 4), [rng.randint(-(2**31), 2**31 - 1), rng.randint(-5000, 5000)]
            op["how"] = rng.choice(["set", "set", "del", "hold", "raw"])
        if k == "fog":
            op["ls"] = [rng.randint(0, 20), rng.choice([None, rng.randint(0, 24), rng.randint(0, 24)])]
            op["col"] = rng.randrange(1 << 24)
        if k == "fail":
            op["w"] = gen_wcfg(rng, layers=("raw", "buf", "duck"))
            gen_wfault(rng, op["w"])
        if k == "int":
            op["int"], op["when"] = rng.choice(["interrupt", "memory"]), rng.random()
        if k in ("save", "reload"):
            op["w"] = gen_wcfg(rng)
        if k in ("reload", "crash"):
            op["r"] = gen_rcfg(rng, forward=0.0)
        ops.append(op)
    return {"types": types, "ops": ops}


def py(v):
    """Spec value -> what the attribute takes and gives."""
    t = v[0]
    if t == "s":
        return sp.xbytes(v[1])
    if t == "v":
        return (v[1][0], v[1][1])
    return v[1]


def badval(kind):
    return {"i": 3, "s": b"x", "str": "x", "f": 1.5, "big": 2**32, "neg": -1}[kind]


def plain(c):
    """Canonical scalar -> python value."""
    return tuple(c[1]) if c[0] == "v" else c[1]


class Obj:
    """Model of one object with variables: kind and key -> canonical variable."""

    def __init__(self, typ, vars_=None):
        self.typ = typ
        self.vars = vars_ or {}

    def clone(self):
        return Obj(self.typ, copy.deepcopy(self.vars))


def run(plan, world):
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.level import Level
    from dustmaker import variable as V

    T = {"b": V.VariableBool, "i": V.VariableInt, "u": V.VariableUInt, "f": V.VariableFloat, "s": V.VariableString, "v": V.VariableVec2, "t": V.VariableStruct}
    classes = sp.entity_classes()

    def make(typ, variables=None):
        if typ not in ATTRS or typ == "level":
            raise InvalidPlan("type")
        cls = classes.get(typ)
        if cls is None:
            raise Violation("class", f"there is no entity class for {typ}")
        return cls(variables) if variables is not None else cls()

    state = {"lv": Level()}
    model = {None: Obj("level", {"dustmod_version": ("s", b"dustmaker")})}
    held = []  # (object key, attribute, view, stored key) still attached
    posheld = []

    def obj(key):
        return state["lv"] if key is None else state["lv"].entities[key][2]

    def add(typ, where, ent=None, vars_=None):
        ent = ent if ent is not None else must(lambda: make(typ), where)
        i = must(lambda: state["lv"].add_entity(48.0 * len(model), 0.0, ent), where)
        if i in model:
            raise Violation("id", f"{where}: new entity got the ID {i} that is in use")
        model[i] = Obj(typ, vars_)
        return i

    for t in plan["types"]:
        add(t, "building")

    def pick(on):
        keys = list(model)
        return keys[(on + 1) % len(keys)]

    def check(where):
        for key, m in model.items():
            what = "level" if key is None else f"{m.typ} {key}"
            o = obj(key)
            table = ATTRS[m.typ]
            if key is not None:
                f = (o.etype, o.rotation, o.layer, bool(o.flip_x), bool(o.flip_y), bool(o.visible))
                if f != (m.typ, 0, 18, False, False, True):
                    raise Violation("field", f"after {where}, {what}: type, rotation, layer, flips, visible are {f}, nothing of which was changed since it was created with the defaults")
            arrays = {n: t for n, t, d in table.values() if d is None}
            got = dict(sp.observe_vmap(o.variables))
            for k in set(got) | set(m.vars):
                a, b = m.vars.get(k), got.get(k)
                if a != b:
                    empty = ("a", arrays[k], ()) if k in arrays else None
                    if empty is not None and (a or empty) == empty and (b or empty) == empty:
                        continue  # reading an array attribute may create the empty array
                    raise Violation("stored", f"after {where}, {what}: stored variable {k!r} is {str(b)[:80]}, should be {str(a)[:80]}")
            for attr, (name, t, d) in table.items():
                st = m.vars.get(name)
                if d is None:
                    if st is None:
                        continue
                    out = attempt(getattr, o, attr)
                    if st[0] != "a":
                        if out.ok:
                            raise Violation("type", f"after {where}, {what}: attribute {attr} reads {out.value!r:.80} although a {st[0]} variable is stored")
                        continue
                    if not out.ok:
                        raise Violation("attribute", f"after {where}, {what}: reading {attr} {out.describe()}")
                    now = must(lambda v=out.value: [x for x in v], f"iterating {attr}")
                    want = [plain(x) for x in st[2]]
                    if now != want or len(out.value) != len(want):
                        raise Violation("attribute", f"after {where}, {what}: {attr} shows {str(now)[:100]}, stored is {str(want)[:100]}")
                    continue
                out = attempt(getattr, o, attr)
                if st is not None and st[0] != t:
                    if out.ok:
                        raise Violation("type", f"after {where}, {what}: attribute {attr} reads {out.value!r:.80} although a {st[0]} variable is stored")
                    continue
                if not out.ok:
                    raise Violation("attribute", f"after {where}, {what}: reading {attr} {out.describe()}")
                want = d if st is None else plain(st)
                if out.value != want or isinstance(out.value, bool) != isinstance(want, bool):
                    raise Violation("attribute", f"after {where}, {what}: {attr} reads {out.value!r:.80}, should be {want!r:.80}")
            if key is None:
                for pl in (1, 2, 3, 4):
                    pos = o.start_position() if pl == 1 else o.start_position(pl)
                    for c in "xy":
                        st = m.vars.get(f"p{pl}_{c}")
                        out = attempt(getattr, pos, c)
                        if st is not None and st[0] != "i":
                            if out.ok:
                                raise Violation("type", f"after {where}: start position {pl}.{c} reads {out.value!r} although a {st[0]} variable is stored")
                        elif not out.ok or out.value != (st[1] if st else 0):
                            raise Violation("attribute", f"after {where}: start position {pl}.{c} {out.describe() if not out.ok else out.value}, should be {st[1] if st else 0}")
            got2 = dict(sp.observe_vmap(o.variables))
            if got2 != got:
                raise Violation("reading", f"after {where}, {what}: reading attributes changed the stored variables")
        for key, attr, view, name in held:
            if key in model and name in model[key].vars:
                want = [plain(x) for x in model[key].vars[name][2]]
                now = must(lambda: list(view), "iterating a view")
                if now != want:
                    raise Violation("view", f"after {where}: a view of {attr} obtained earlier shows {str(now)[:100]}, stored is {str(want)[:100]}")

    def detach(key, name):
        held[:] = [h for h in held if not (h[0] == key and h[3] == name)]

    def save(cfg, tracer=None):
        h = open_stream(world, Store(), cfg, "w")

        def go():
            with DFWriter(h.f) as w:
                w.write_level(state["lv"])

        if tracer is not None:
            with tracer:
                out = attempt(go)
        else:
            out = attempt(go)
        data = stored(h)
        if h.raw is not None:
            h.raw.fl.armed = False
            attempt(h.f.close)
        return out, data

    def load(data, cfg):
        h = open_stream(world, Store(data), cfg, "r")
        state["lv"] = must(lambda: DFReader(h.f).read_level(), "loading")
        held.clear()
        posheld.clear()

    disk = None
    check("building")
    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        where = f"step {n} ({k})"
        key = pick(op["on"])
        m = model[key]
        o = obj(key)
        table = ATTRS[m.typ]
        names = sorted(table)
        scal = [a for a in names if table[a][2] is not None]
        arrs = [a for a in names if table[a][2] is None]
        did = True
        if k == "get":
            for a in names:
                attempt(getattr, o, a)
        elif k == "set" and scal:
            a = scal[op["k"] % len(scal)]
            name, t, _ = table[a]
            v = op["vals"][t][0]
            must(lambda: setattr(o, a, py(v)), f"{where} setting {a}")
            m.vars[name] = sp.canon_var(v)
        elif k == "again" and scal:
            a = scal[op["k"] % len(scal)]
            name, t, d = table[a]
            if m.vars.get(name, (t,))[0] == t and (t != "f" or name in m.vars or (d * 2**16).is_integer()):  # no default that a save rounds
                now = must(lambda: getattr(o, a), f"{where} reading {a}")
                must(lambda: setattr(o, a, now), f"{where} setting {a} to {now!r:.60} that it reads as")
                m.vars.setdefault(name, (t, d))
        elif k == "swap":
            # another mapping with the same variables, or with none
            if op["k"] % 3:
                o.variables = dict(o.variables)
            else:
                o.variables = {}
                m.vars.clear()
                held[:] = [h for h in held if h[0] != key]
            if key is None:
                posheld.clear()
        elif k == "bad" and scal:
            a = scal[op["k"] % len(scal)]
            name, t, _ = table[a]
            bad = BAD[t][op["k"] % len(BAD[t])]
            out = attempt(setattr, o, a, badval(bad))
            if out.ok:
                raise Violation("accepted", f"{where}: setting {a} to {badval(bad)!r} was accepted")
            world.probe("refused-value")
        elif k == "del":
            a = names[op["k"] % len(names)]
            must(lambda: delattr(o, a), f"{where} deleting {a}")
            m.vars.pop(table[a][0], None)
            detach(key, table[a][0])
        elif k in ("raw", "rawother"):
            a = names[op["k"] % len(names)]
            name, t, d = table[a]
            if k == "raw":
                v = op["vals"][t][0] if d is not None else ["a", t, op["vals"][t]]
            else:
                v = ["t", []] if op["t"] == "t" else op["vals"][op["t"]][1]
                if key is None and name == "level_type":
                    v = ["i", 6]  # the level's type is needed to save it
            o.variables[name] = sp.build_var(v)
            m.vars[name] = sp.canon_var(v)
            detach(key, name)
        elif k == "rawdel":
            if m.vars:
                name = sorted(m.vars)[op["k"] % len(m.vars)]
                o.variables.pop(name, None)
                m.vars.pop(name)
                detach(key, name)
        elif k == "assign" and arrs:
            a = arrs[op["k"] % len(arrs)]
            name, t, _ = table[a]
            arr = V.VariableArray(T[t], [sp.build_var(x) for x in op["vals"][t]])
            must(lambda: setattr(o, a, arr), f"{where} assigning {a}")
            m.vars[name] = ("a", t, tuple(sp.canon_var(x) for x in op["vals"][t]))
            detach(key, name)
            held.append((key, a, arr, name))
        elif k in ("arr", "view", "hold") and (arrs or k == "view"):
            if k == "view":
                if not held:
                    continue
                key, a, view, name = held[op["k"] % len(held)]
                m = model[key]
                t = ATTRS[m.typ][a][1]
                world.probe("held-view")
            else:
                a = arrs[op["k"] % len(arrs)]
                name, t, _ = table[a]
                if m.vars.get(name, ("a",))[0] != "a":
                    continue  # read is refused, checked above
                view = must(lambda: getattr(o, a), f"{where} reading {a}")
                if k == "hold":
                    m.vars.setdefault(name, ("a", t, ()))
                    held.append((key, a, view, name))
            if k != "hold":
                cur = list(m.vars.get(name, ("a", t, ()))[2])
                arr_op(op["how"], view, cur, t, op["vals"][t], op["k"], f"{where} {op['how']} on {a}")
                m.vars[name] = ("a", t, tuple(cur))
                world.probe("array-" + op["how"])
        elif k == "norm" and m.typ == "fog_trigger":
            if any(m.vars.get(table[a][0], ("a",))[0] != "a" for a in ("colours", "pers", "gradient")) or m.vars.get("has_sub_layers", ("b",))[0] != "b":
                continue
            must(o.normalize, where)
            norm_model(m)
            world.probe("normalised")
        elif k == "fog" and m.typ == "fog_trigger":
            if any(m.vars.get(table[a][0], ("a",))[0] != "a" for a in ("colours", "pers", "gradient")):
                continue
            (layer, sub), col = op["ls"], op["col"]
            must(lambda: setattr(o, "has_sub_layers", sub is not None or m.vars.get("has_sub_layers", ("b", False))[1] is True), where)
            m.vars["has_sub_layers"] = ("b", sub is not None or m.vars.get("has_sub_layers", ("b", False))[1] is True)
            must(o.normalize, where)
            norm_model(m)
            at = must(lambda: o.get_layer_index(layer, sub) if sub is not None else o.get_layer_index(layer), f"{where}: the index of layer {layer} sublayer {sub}")
            want = layer if sub is None else (sub + 1) * 21 + layer
            if at != want:
                raise Violation("fog", f"{where}: fog data of layer {layer} sublayer {sub} is said to be at {at}, is at {want}")

            def paint():
                o.colours[at] = col
                o.pers[at] = 0.5

            must(paint, f"{where}: setting the fog of layer {layer} sublayer {sub}")
            for name, t, v in (("fog_colour", "u", col), ("fog_per", "f", 0.5)):
                cur = list(m.vars[name][2])
                cur[want] = (t, v)
                m.vars[name] = ("a", t, tuple(cur))
            world.probe("fog-layer")
        elif k == "clone" and key is not None:
            ent = must(lambda: make(m.typ, o.variables), where)
            add(m.typ, where, ent, copy.deepcopy(m.vars))
        elif k == "copy" and key is not None:
            ent = must(lambda: copy.deepcopy(o), where)
            add(m.typ, where, ent, copy.deepcopy(m.vars))
        elif k == "add":
            add(op["type"], where)
        elif k == "start":
            lvm = model[None]
            pl = op["pl"]
            if op["how"] == "raw":
                state["lv"].variables[f"p{pl}_x"] = V.VariableInt(op["xy"][0])
                lvm.vars[f"p{pl}_x"] = ("i", op["xy"][0])
            elif op["how"] == "del":
                pos = state["lv"].start_position(pl)
                must(lambda: delattr(pos, "x"), where)
                lvm.vars.pop(f"p{pl}_x", None)
            else:
                if op["how"] == "hold" and posheld:
                    pl, pos = posheld[op["k"] % len(posheld)]
                else:
                    pos = state["lv"].start_position() if pl == 1 else state["lv"].start_position(pl)
                    posheld.append((pl, pos))

                def put():
                    pos.x, pos.y = op["xy"]

                must(put, where)
                lvm.vars[f"p{pl}_x"], lvm.vars[f"p{pl}_y"] = ("i", op["xy"][0]), ("i", op["xy"][1])
        elif k in ("save", "fail", "int", "reload"):
            if k == "int":
                tr = LineTracer()
                out, _ = save({"layer": "bytesio"}, tr)
                out, data = save({"layer": "bytesio"}, LineTracer(raise_at=1 + int(op["when"] * tr.n), exc=INTERRUPTS[op["int"]]()))
                if not out.ok:
                    world.fault("interrupt-" + op["int"])
            else:
                out, data = save(op["w"])
            world.log(where, out.ok)
            if not out.ok:
                if k in ("save", "reload"):
                    raise Violation("unexpected-error", f"{where}: saving to healthy storage {out.describe()}")
                world.probe("failed-save")
            else:
                disk = (data, {q: x.clone() for q, x in model.items()})
            if k == "reload":
                load(data, op["r"])
                world.probe("reload")
        elif k == "crash":
            if disk is None:
                continue
            load(disk[0], op["r"])
            model.clear()
            model.update({q: x.clone() for q, x in disk[1].items()})
            world.fault("crash")
        else:
            did = k in OPS
            if not did:
                raise InvalidPlan(k)
            continue
        if k not in ("save", "fail", "int", "reload"):
            world.log(where, key)
        world.probe(k)
        if set(state["lv"].entities) != {q for q in model if q is not None}:
            raise Violation("entities", f"after {where}: entities {sorted(state['lv'].entities)}, should be {sorted(q for q in model if q is not None)}")
        check(where)


def norm_model(m):
    size = 21 * 26 if m.vars.get("has_sub_layers", ("b", False))[1] else 21
    for name, t, pad, n in (("fog_colour", "u", 0x111118, size), ("fog_per", "f", 0.0, size), ("gradient", "u", 0, 3)):
        cur = list(m.vars.get(name, ("a", t, ()))[2])[:n]
        m.vars[name] = ("a", t, tuple(cur + [(t, pad)] * (n - len(cur))))


def arr_op(how, view, cur, t, vals, k, where):
    """One list operation on the view and on the model list."""
    a, b = py(vals[0]), py(vals[1])
    ca, cb = sp.canon_var(vals[0]), sp.canon_var(vals[1])
    n = len(cur)
    if how == "append":
        must(lambda: view.append(a), where)
        cur.append(ca)
    elif how == "insert":
        i = k % (n + 1)
        must(lambda: view.insert(i, a), where)
        cur.insert(i, ca)
    elif how in ("extend", "iadd"):
        must(lambda: view.extend([a, b]) if how == "extend" else view.__iadd__([a, b]), where)
        cur.extend([ca, cb])
    elif how == "clear":
        must(view.clear, where)
        cur.clear()
    elif how == "reverse":
        must(view.reverse, where)
        cur.reverse()
    elif not n:
        return
    elif how == "pop":
        i = k % n
        got = must(lambda: view.pop(i), where)
        if got != plain(cur[i]):
            raise Violation("array", f"{where}: pop({i}) gave {got!r:.60}, should be {plain(cur[i])!r:.60}")
        cur.pop(i)
    elif how == "setitem":
        i = k % n if k & 1 else -1 - k % n
        must(lambda: view.__setitem__(i, a), where)
        cur[i] = ca
    elif how == "delitem":
        i = k % n
        must(lambda: view.__delitem__(i), where)
        del cur[i]
    elif how == "remove":
        v = plain(cur[k % n])
        must(lambda: view.remove(v), where)
        cur.remove(cur[k % n])
    else:
        raise InvalidPlan(how)
