"""Reference model ("spec") of the things dustmaker stores, as plain JSON values.

spec -> dustmaker objects (`build_*`), dustmaker objects -> canonical values
(`observe_*`), spec -> canonical values (`canon_*`), and seeded generators.
Only dustmaker's public API is used.
"""
import functools
import math

from .kernel import InvalidPlan, Violation

KEYCH = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"

# ----------------------------------------------------------------- bytes specs
def xbytes(b):
    """Expand a bytes spec: latin-1 str, or {"n": length, "k": seed}."""
    if isinstance(b, str):
        return b.encode("latin1")
    n, k = b["n"], b["k"]
    base = bytes(((i * 131 + k * 31 + (i >> 8) * 7) & 0xFF) for i in range(min(n, 4099)))
    return (base * (n // max(1, len(base)) + 1))[:n] if n else b""


def gen_bytes(rng, big=0.0, maxlen=12):
    if big and rng.random() < big:
        n = rng.choice([65534, 65535, 65536, 2 * 65535, 2 * 65535 - 1, 131071, 65535 + 7])
        return {"n": n, "k": rng.randrange(256)}
    k = rng.random()
    if k < 0.1:
        return ""
    if k < 0.5:
        return "".join(rng.choice("abcxyz019_ ") for _ in range(rng.randint(1, maxlen)))
    if k < 0.55:
        return {"n": rng.choice([255, 256, 257, 300, 1000]), "k": rng.randrange(256)}
    return "".join(chr(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])) for _ in range(rng.randint(1, maxlen)))


def gen_key(rng):
    k = rng.random()
    if k < 0.05:
        return ""
    if k < 0.1:
        return "".join(rng.choice(KEYCH) for _ in range(63))
    return "".join(rng.choice(KEYCH) for _ in range(rng.randint(1, 9)))


# ------------------------------------------------------------------- variables
VT = {"b": 1, "i": 2, "u": 3, "f": 4, "s": 5, "v": 10, "t": 14, "a": 15}
VT_INV = {v: k for k, v in VT.items()}


def gen_int(rng):
    return rng.choice([0, 1, -1, 2**31 - 1, -(2**31), -(2**31) + 1, rng.randint(-1000, 1000), rng.randint(-(2**31), 2**31 - 1)])


def gen_uint(rng):
    return rng.choice([0, 1, 2**32 - 1, 2**31, 2**31 - 1, rng.randint(0, 1000), rng.randint(0, 2**32 - 1)])


def gen_float(rng, offgrid=0.15):
    k = rng.random()
    if k < 0.15:
        return rng.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0**-31, -(2.0**-31), 1 - 2.0**-31, -1 + 2.0**-31, 2147483647.0, -2147483647.0, -1e-20, 1e-20, -(2.0**-40), -0.0, 1 - 2.0**-40, -3 - 2.0**-40])
    if k < 0.55:
        return float(rng.randint(-2000, 2000)) / rng.choice([1, 2, 4, 8, 1024])
    if k < 0.85 or rng.random() > offgrid:
        return rng.randint(-(2**20), 2**20) + rng.randrange(2**31) / 2.0**31
    return rng.uniform(-100000, 100000)


def gen_var(rng, depth=2, big=0.0, types="biufsvta"):
    pool = [t for t in types if depth > 0 or t not in "ta"] or ["i"]
    return gen_var_of(rng, rng.choice(pool), depth, big)


def gen_var_of(rng, t, depth, big=0.0):
    if t == "b":
        return ["b", rng.random() < 0.5]
    if t == "i":
        return ["i", gen_int(rng)]
    if t == "u":
        return ["u", gen_uint(rng)]
    if t == "f":
        return ["f", gen_float(rng)]
    if t == "s":
        return ["s", gen_bytes(rng, big)]
    if t == "v":
        return ["v", [gen_float(rng), gen_float(rng)]]
    if t == "t":
        return ["t", gen_vmap(rng, rng.choice([0, 1, 2, 3]), depth - 1, big)]
    et = rng.choice("biufsv" + ("ta" if depth > 1 else "t" if depth > 0 else ""))
    n = rng.choice([0, 1, 2, 3, 5])
    if et in "bi" and rng.random() < 0.03:
        n = rng.choice([255, 256, 257])
    if et in "ta" and rng.random() < 0.5:
        # elements of one kind, each with some of the keys, as games store them
        t = gen_shape(rng, et, depth)
        odd = rng.randrange(n) if n and rng.random() < 0.1 else -1  # one with other types under the same keys
        return ["a", et, [gen_of_shape(rng, reshape(rng, t, depth) if i == odd else t, big) for i in range(n)]]
    return ["a", et, [gen_var_of(rng, et, depth - 1, big) for _ in range(n)]]


def gen_shape(rng, t, depth):
    """A type: one letter, {key: type} or [element type]."""
    if t == "t":
        return {gen_key(rng): gen_shape(rng, rng.choice("biufsv" + ("tttaa" if depth > 0 else "")), depth - 1) for _ in range(rng.choice([1, 2, 3]))}
    if t == "a":
        return [gen_shape(rng, rng.choice("biufsv" + ("tta" if depth > 0 else "")), depth - 1)]
    return t


def reshape(rng, t, depth):
    if isinstance(t, dict) and t:
        k = rng.choice(list(t))
        return {**t, k: reshape(rng, t[k], depth - 1) if rng.random() < 0.3 else gen_shape(rng, rng.choice("biufsv" + ("ta" if depth > 0 else "")), depth - 1)}
    if isinstance(t, list):
        return [reshape(rng, t[0], depth - 1) if rng.random() < 0.5 else gen_shape(rng, rng.choice("biufsv" + ("ta" if depth > 0 else "")), depth - 1)]
    return rng.choice("biufsv")


def gen_of_shape(rng, t, big=0.0):
    if isinstance(t, dict):
        keys = [k for k in t if rng.random() < 0.7]
        if rng.random() < 0.2:
            rng.shuffle(keys)
        return ["t", [[k, gen_of_shape(rng, t[k], big)] for k in keys]]
    if isinstance(t, list):
        et = "t" if isinstance(t[0], dict) else "a" if isinstance(t[0], list) else t[0]
        return ["a", et, [gen_of_shape(rng, t[0], big) for _ in range(rng.choice([0, 1, 2]))]]
    return gen_var_of(rng, t, 0, big)


def gen_dense_var(rng):
    """One variable that is deep, wide or long."""
    k = rng.choice(["deep", "deep", "wide", "long", "strings", "structs"])
    if k == "deep":
        v = gen_var(rng, 0)
        for _ in range(rng.choice([5, 9, 20, 40])):
            if rng.random() < 0.5:
                v = ["a", v[0], [v] + ([gen_var_of(rng, v[0], 0, 0.0)] if v[0] in "biufsv" else [])]
            else:
                v = ["t", [[gen_key(rng), v]]]
        return v
    if k == "wide":
        return ["t", [[f"k{i}", gen_var(rng, 0)] for i in range(rng.choice([64, 256, 300]))]]
    n = rng.choice([256, 300])
    if k == "long":
        t = rng.choice("biufv")
        return ["a", t, [gen_var_of(rng, t, 0, 0.0) for _ in range(n)]]
    if k == "strings":
        return ["a", "s", [["s", rng.choice(["", "x", "yz" * 20])] for _ in range(n)]]
    return ["a", "t", [["t", [["k", ["i", i]]] if i % 2 else []] for i in range(n)]]


def gen_vmap(rng, n, depth=2, big=0.0):
    out = []
    seen = set()
    for _ in range(n):
        k = gen_key(rng)
        if k in seen:
            continue
        seen.add(k)
        out.append([k, gen_var(rng, depth, big)])
    return out


def canon_var(v):
    t = v[0]
    if t == "s":
        return ("s", xbytes(v[1]))
    if t == "v":
        return ("v", (v[1][0], v[1][1]))
    if t == "t":
        return ("t", canon_vmap(v[1]))
    if t == "a":
        return ("a", v[1], tuple(canon_var(x) for x in v[2]))
    return (t, v[1])


def canon_vmap(m):
    return tuple((k, canon_var(v)) for k, v in m)


def _dm():
    import dustmaker.variable as var

    return {
        "b": var.VariableBool, "i": var.VariableInt, "u": var.VariableUInt, "f": var.VariableFloat,
        "s": var.VariableString, "v": var.VariableVec2, "t": var.VariableStruct, "a": var.VariableArray,
    }


def build_var(v, T=None):
    T = T or _dm()
    t = v[0]
    if t == "s":
        return T["s"](xbytes(v[1]))
    if t == "v":
        return T["v"]((v[1][0], v[1][1]))
    if t == "t":
        return T["t"](build_vmap(v[1], T))
    if t == "a":
        return T["a"](T[v[1]], [build_var(x, T) for x in v[2]])
    return T[t](v[1])


def build_vmap(m, T=None):
    T = T or _dm()
    return {k: build_var(v, T) for k, v in m}


def observe_var(x, inv=None):
    inv = inv or {c: t for t, c in _dm().items()}
    t = inv.get(type(x))
    if t is None:
        return ("?", repr(x)[:80])
    if t == "t":
        return ("t", observe_vmap(x.value, inv))
    if t == "a":
        et = inv.get(x.value[0], "?")
        return ("a", et, tuple(observe_var(e, inv) for e in x.value[1]))
    if t == "v":
        return ("v", tuple(x.value))
    if t == "s":
        return ("s", bytes(x.value))
    return (t, x.value)


def observe_vmap(m, inv=None):
    inv = inv or {c: t for t, c in _dm().items()}
    return tuple((k, observe_var(v, inv)) for k, v in m.items())


# ------------------------------------------------------------------ comparison
def fclose(a, b, res):
    """a: expected; exact when a is on the grid of resolution `res`."""
    if isinstance(b, bool) or not isinstance(b, (int, float)):
        return False
    if a == b:
        return True
    if a / res == math.floor(a / res):
        return False
    return abs(a - b) <= res


def diff_var(a, b, path="var"):
    if a[0] != b[0]:
        return f"{path}: type {a[0]} became {b[0]} ({str(b)[:60]})"
    t = a[0]
    if t == "f":
        return None if fclose(a[1], b[1], 2.0**-31) and isinstance(b[1], float) else f"{path}: float {a[1]!r} became {b[1]!r}"
    if t == "v":
        ok = len(b[1]) == 2 and all(fclose(x, y, 2.0**-31) for x, y in zip(a[1], b[1]))
        return None if ok else f"{path}: vec2 {a[1]!r} became {b[1]!r}"
    if t == "t":
        return diff_vmap(a[1], b[1], path)
    if t == "a":
        if a[1] != b[1]:
            return f"{path}: array element type {a[1]} became {b[1]}"
        if len(a[2]) != len(b[2]):
            return f"{path}: array length {len(a[2])} became {len(b[2])}"
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            d = diff_var(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if a[1] != b[1] or isinstance(a[1], bool) != isinstance(b[1], bool):
        if t == "s":
            return f"{path}: string of {len(a[1])} bytes became {len(b[1])} bytes {b[1][:20]!r} (expected {a[1][:20]!r})"
        return f"{path}: {t} {a[1]!r} became {b[1]!r}"
    return None


def diff_vmap(a, b, path="vars", ordered=True):
    ka, kb = [k for k, _ in a], [k for k, _ in b]
    if ordered and ka != kb:
        return f"{path}: keys {ka[:6]} became {kb[:6]}"
    if not ordered and sorted(ka) != sorted(kb):
        return f"{path}: keys {sorted(ka)[:6]} became {sorted(kb)[:6]}"
    db = dict(b)
    for k, v in a:
        d = diff_var(v, db[k], f"{path}.{k}")
        if d:
            return d
    return None


def diff_map(a, b, path, cmp):
    if set(a) != set(b):
        miss = sorted(set(a) - set(b))[:3]
        extra = sorted(set(b) - set(a))[:3]
        return f"{path}: missing {miss} extra {extra}"
    for k, v in a.items():
        d = cmp(v, b[k])
        if d:
            return f"{path}[{k}]: {d}"
    return None


TILEF = ("shape", "flags", "sprite_set", "sprite_tile", "palette", "edges")
PROPF = ("layer", "x", "y", "layer_sub", "rotation", "flip_x", "flip_y", "scale", "prop_set", "prop_group", "prop_index", "palette")
ENTF = ("x", "y", "etype", "vars", "rotation", "layer", "flip_x", "flip_y", "visible")


def cmp_tile(a, b):
    for n, x, y in zip(TILEF, a, b):
        if x != y:
            return f"{n} {x!r} became {y!r}"
    return None


def cmp_prop(a, b):
    for n, x, y in zip(PROPF, a, b):
        if n in ("x", "y"):
            if not fclose(x, y, 1.0):
                return f"{n} {x!r} became {y!r}"
        elif x != y:
            return f"{n} {x!r} became {y!r}"
    return None


def cmp_entity(a, b):
    for n, x, y in zip(ENTF, a, b):
        if n in ("x", "y"):
            if not fclose(x, y, 1 / 128.0):
                return f"{n} {x!r} became {y!r}"
        elif n == "vars":
            d = diff_vmap(x, y)
            if d:
                return d
        elif x != y:
            return f"{n} {x!r} became {y!r}"
    return None


def diff_level(a, b, *, vars_ordered=True, skip=()):
    """First difference between canonical levels (a expected), or None."""
    for k, cmp in (("tiles", cmp_tile), ("props", cmp_prop), ("entities", cmp_entity), ("bd_tiles", cmp_tile), ("bd_props", cmp_prop)):
        if k in skip:
            continue
        d = diff_map(a[k], b[k], k, cmp)
        if d:
            return d
    if "vars" not in skip:
        d = diff_vmap(a["vars"], b["vars"], ordered=vars_ordered)
        if d:
            return d
    if "sshot" not in skip and a["sshot"] != b["sshot"]:
        return f"thumbnail: {len(a['sshot'])} bytes {a['sshot'][:12]!r} became {len(b['sshot'])} bytes {b['sshot'][:12]!r}"
    return None


# ---------------------------------------------------------------------- levels
NOEDGE = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]


def canon_edges(edges):
    return tuple(
        (bool(e[0]), bool(e[1]), bool(e[2]), bool(e[3]), e[4], e[5], e[6], bool(e[7]), bool(e[8]), bool(e[9]), e[10], e[11])
        for e in edges
    )


def strip_filth(edges):
    return tuple(e[:6] + (0, False, False, False, 0, 0) for e in edges)


def canon_tile(t, persisted=True):
    layer = t[0]
    edges = canon_edges(t[8])
    if persisted and (layer != 19 or not any(e[6] for e in edges)):
        edges = strip_filth(edges)
    return (t[3], t[4], t[5], t[6], t[7], edges)


def canon_prop(p):
    return (p[1], float(p[2]), float(p[3]), p[4], p[5], bool(p[6]), bool(p[7]), p[8], p[9], p[10], p[11], p[12])


def canon_entity(e):
    return (float(e[1]), float(e[2]), e[3], canon_vmap(e[4]), e[5], e[6], bool(e[7]), bool(e[8]), bool(e[9]))


def canon_level(s, persisted=True):
    return {
        "tiles": {(t[0], t[1], t[2]): canon_tile(t, persisted) for t in s["tiles"]},
        "props": {p[0]: canon_prop(p) for p in s["props"]},
        "entities": {e[0]: canon_entity(e) for e in s["entities"]},
        "bd_tiles": {(t[0], t[1], t[2]): canon_tile(t, persisted) for t in s["bd_tiles"]},
        "bd_props": {p[0]: canon_prop(p) for p in s["bd_props"]},
        "vars": canon_vmap(s["vars"]),
        "sshot": xbytes(s["sshot"]),
    }


def scale_of(lg):
    return math.pow(50.0, (lg - 32.0) / 24.0)


def build_tile(t):
    from dustmaker.tile import Tile, TileEdgeData, TileShape, TileSpriteSet

    if len(t) != 9 or len(t[8]) != 4:
        raise InvalidPlan("tile")
    tile = Tile(TileShape(t[3]), tile_flags=t[4], sprite_set=TileSpriteSet(t[5]), sprite_tile=t[6], sprite_palette=t[7])
    for i, e in enumerate(t[8]):
        tile.edge_data[i] = TileEdgeData(
            solid=bool(e[0]), visible=bool(e[1]), caps=(bool(e[2]), bool(e[3])), angles=(e[4], e[5]),
            filth_sprite_set=TileSpriteSet(e[6]), filth_spike=bool(e[7]), filth_caps=(bool(e[8]), bool(e[9])), filth_angles=(e[10], e[11]),
        )
    return tile


def build_prop(p):
    from dustmaker.prop import Prop

    return Prop(p[4], p[5], bool(p[6]), bool(p[7]), scale_of(p[8]), p[9], p[10], p[11], p[12])


# which class of dustmaker.entity stands for which entity type of the game
CLASSES = {
    "AI_controller": "AIController", "ambience_trigger": "AmbienceTrigger", "base_trigger": "Trigger", "camera_node": "CameraNode",
    "check_point": "CheckPoint", "custom_score_book": "CustomScoreBook", "dust_girl": "Dustgirl", "dust_kid": "Dustkid", "dust_man": "Dustman",
    "dust_worth": "Dustworth", "dust_wraith": "Dustwraith", "enemy_bear": "EnemyBear", "enemy_book": "EnemyBook", "enemy_butler": "EnemyButler",
    "enemy_chest_scrolls": "EnemyChestScrolls", "enemy_chest_treasure": "EnemyChestTreasure", "enemy_critter": "EnemyTurkey",
    "enemy_door": "EnemyDoor", "enemy_flag": "EnemyFlag", "enemy_gargoyle_big": "EnemyGargoyleBig", "enemy_gargoyle_small": "EnemyGargoyleSmall",
    "enemy_hawk": "EnemyHawk", "enemy_key": "EnemyKey", "enemy_knight": "EnemyKnight", "enemy_maid": "EnemyMaid", "enemy_porcupine": "EnemyPorcupine",
    "enemy_scrolls": "EnemyScroll", "enemy_slime_ball": "EnemySlimeBall", "enemy_slime_barrel": "EnemySlimeBarrel",
    "enemy_slime_beast": "EnemySlimeBeast", "enemy_spring_ball": "EnemySpringBall", "enemy_stoneboss": "EnemyTotemLarge",
    "enemy_stonebro": "EnemyTotemSmall", "enemy_trash_ball": "EnemyTrashBall", "enemy_trash_beast": "EnemyTrashBeast",
    "enemy_trash_can": "EnemyTrashCan", "enemy_trash_tire": "EnemyTrashTire", "enemy_treasure": "EnemyTreasure",
    "enemy_tutorial_hexagon": "EnemyHeavyPrism", "enemy_tutorial_square": "EnemyLightPrism", "enemy_wolf": "EnemyWolf", "entity_emitter": "Emitter",
    "fog_trigger": "FogTrigger", "giga_gate": "RedKeyDoor", "hittable_apple": "Apple", "kill_box": "DeathZone", "leaf_sprite": "Leafsprite",
    "level_door": "LevelDoor", "level_end": "LevelEnd", "level_end_prox": "EndZone", "music_trigger": "MusicTrigger", "score_book": "ScoreBook",
    "slime_boss": "Slimeboss", "special_trigger": "SpecialTrigger", "text_trigger": "TextTrigger", "trash_king": "Trashking",
    "z_string_list": "StringList",
}
# the numbers the game stores for named values
NAMED = {
    ("entity", "CameraNodeType"): {"NORMAL": 1, "DETACH": 2, "CONNECT": 3, "INTEREST": 4, "FORCE_CONNECT": 5},
    ("level", "LevelType"): {"NORMAL": 0, "NEXUS": 1, "NEXUS_MP": 2, "KOTH": 3, "SURVIVAL": 4, "DUSTMOD": 6},
    ("replay", "IntentStream"): {"X": 0, "Y": 1, "JUMP": 2, "DASH": 3, "FALL": 4, "LIGHT": 5, "HEAVY": 6, "TAUNT": 7, "MOUSE_X": 8, "MOUSE_Y": 9, "MOUSE_STATE": 10},
    ("replay", "MouseState"): {"WHEEL_UP": 1, "WHEEL_DOWN": 2, "LEFT_CLICK": 4, "RIGHT_CLICK": 8, "MIDDLE_CLICK": 16},
    ("replay", "Character"): {"DUSTMAN": 0, "DUSTGIRL": 1, "DUSTKID": 2, "DUSTWORTH": 3, "SLIMEBOSS": 4, "TRASHKING": 5, "LEAFSPRITE": 6, "DUSTWRAITH": 7},
    ("tile", "TileSpriteSet"): {"NONE_0": 0, "MANSION": 1, "FOREST": 2, "CITY": 3, "LABORATORY": 4, "TUTORIAL": 5, "NEXUS": 6, "NONE_7": 7},
    ("tile", "TileSide"): {"TOP": 0, "BOTTOM": 1, "LEFT": 2, "RIGHT": 3},
    ("tile", "TileShape"): {"FULL": 0, "BIG_1": 1, "SMALL_1": 2, "BIG_2": 3, "SMALL_2": 4, "BIG_3": 5, "SMALL_3": 6, "BIG_4": 7, "SMALL_4": 8, "BIG_5": 9, "SMALL_5": 10, "BIG_6": 11, "SMALL_6": 12, "BIG_7": 13, "SMALL_7": 14, "BIG_8": 15, "SMALL_8": 16, "HALF_A": 17, "HALF_B": 18, "HALF_C": 19, "HALF_D": 20},
    ("variable", "VariableType"): {"NULL": 0, "BOOL": 1, "INT": 2, "UINT": 3, "FLOAT": 4, "STRING": 5, "VEC2": 10, "STRUCT": 14, "ARRAY": 15},
}

_ETYPES = {}


def entity_classes():
    from dustmaker.entity import Entity

    if not _ETYPES:
        user_classes(Entity)
        todo = [Entity]
        while todo:
            c = todo.pop()
            todo.extend(c.__subclasses__())
            if "TYPE_IDENTIFIER" in c.__dict__:
                _ETYPES[c.TYPE_IDENTIFIER] = c
        from dustmaker import entity

        _ETYPES.update({k: getattr(entity, v) for k, v in CLASSES.items() if isinstance(getattr(entity, v, None), type)})
    return _ETYPES


def wrong_name():
    """A named value that does not stand for the number the game stores, or None."""
    import importlib

    for (mod, cls), names in NAMED.items():
        c = getattr(importlib.import_module("dustmaker." + mod), cls, None)
        for name, number in names.items():
            got = getattr(c, name, None)
            if got is None or int(got) != number:
                return f"{cls}.{name} stands for {got if got is None else int(got)}; the game stores {number}"
    return None


def user_classes(Entity):
    """Entity types added by a user of the library, as the documentation of Entity describes."""
    from dustmaker.variable import VariableArray, VariableUInt, VariableVec2

    class SimUser(Entity):
        TYPE_IDENTIFIER = "vsim_user"

        @property
        def friend(self):
            var = self.variables.get("friend")
            return var.value if var is not None else 0

        @friend.setter
        def friend(self, num):
            self.variables["friend"] = VariableUInt(num)

        def transform(self, mat):
            super().transform(mat)
            var = self.variables.get("spots")
            if isinstance(var, VariableArray):
                self.variables["spots"] = VariableArray(VariableVec2, [VariableVec2(mat.sample(*v)) for v in var])

        def remap_ids(self, id_map):
            super().remap_ids(id_map)
            if "friend" in self.variables:
                self.friend = id_map.get(self.friend, 0)

    class SimScript(SimUser):  # pylint: disable=unused-variable
        TYPE_IDENTIFIER = "z_vsim_user"


def build_entity(e):
    from dustmaker.entity import Entity

    cls = entity_classes().get(e[3])
    args = (build_vmap(e[4]), e[5], e[6], bool(e[7]), bool(e[8]), bool(e[9]))
    if cls is not None:
        return cls(*args)
    ent = Entity(*args)
    ent.etype = e[3]
    return ent


def build_level(s):
    from dustmaker.level import Level

    level = Level()
    level.variables = build_vmap(s["vars"])
    level.sshot = xbytes(s["sshot"])
    for t in s["tiles"]:
        level.tiles[(t[0], t[1], t[2])] = build_tile(t)
    for p in s["props"]:
        level.add_prop(p[1], p[2], p[3], build_prop(p), p[0])
    for e in s["entities"]:
        level.add_entity(e[1], e[2], build_entity(e), e[0])
    for t in s["bd_tiles"]:
        level.backdrop.tiles[(t[0], t[1], t[2])] = build_tile(t)
    for p in s["bd_props"]:
        level.backdrop.add_prop(p[1], p[2], p[3], build_prop(p), p[0])
    return level


def observe_tile(tile, layer=None, persisted=False):
    edges = tuple(
        (bool(e.solid), bool(e.visible), bool(e.caps[0]), bool(e.caps[1]), e.angles[0], e.angles[1],
         int(e.filth_sprite_set), bool(e.filth_spike), bool(e.filth_caps[0]), bool(e.filth_caps[1]), e.filth_angles[0], e.filth_angles[1])
        for e in tile.edge_data
    )
    if persisted and (layer != 19 or not any(e[6] for e in edges)):
        edges = strip_filth(edges)
    return (int(tile.shape), tile.tile_flags, int(tile.sprite_set), tile.sprite_tile, tile.sprite_palette, edges)


def observe_prop(v):
    layer, x, y, p = v
    lg = None
    if isinstance(p.scale, (int, float)) and p.scale > 0:
        lg = int(round(math.log(p.scale) / math.log(50.0) * 24.0)) + 32
        if abs(scale_of(lg) - p.scale) > 1e-9 * p.scale:
            lg = ("off-grid scale", p.scale)
    return (layer, x, y, p.layer_sub, p.rotation, bool(p.flip_x), bool(p.flip_y), lg, p.prop_set, p.prop_group, p.prop_index, p.palette)


def observe_entity(v):
    x, y, e = v
    etype = e.etype
    cls = entity_classes().get(etype)
    if cls is not None and type(e) is not cls:
        etype = (etype, "wrong class", type(e).__name__)
    return (x, y, etype, observe_vmap(e.variables), e.rotation, e.layer, bool(e.flip_x), bool(e.flip_y), bool(e.visible))


def observe_level(level, persisted=False):
    bd = level.backdrop
    return {
        "tiles": {k: observe_tile(t, k[0], persisted) for k, t in level.tiles.items()},
        "props": {k: observe_prop(v) for k, v in level.props.items()},
        "entities": {k: observe_entity(v) for k, v in level.entities.items()},
        "bd_tiles": {k: observe_tile(t, k[0], persisted) for k, t in bd.tiles.items()},
        "bd_props": {k: observe_prop(v) for k, v in bd.props.items()},
        "vars": observe_vmap(level.variables),
        "sshot": bytes(level.sshot),
    }


def freeze(c):
    """Canonical level -> hashable/stable repr for exact comparison and digests."""
    return repr({k: (sorted(v.items(), key=repr) if isinstance(v, dict) else v) for k, v in c.items()})


# ------------------------------------------------------------------ generators
ETYPE_POOL = (
    "enemy_bear", "hittable_apple", "check_point", "level_end", "level_end_prox", "camera_node", "AI_controller", "enemy_key",
    "enemy_door", "fog_trigger", "kill_box", "text_trigger", "dust_man", "enemy_trash_tire", "enemy_slime_beast", "enemy_tutorial_hexagon",
    "enemy_stoneboss", "entity_emitter", "score_book", "giga_gate", "custom_score_book", "enemy_chest_treasure", "enemy_gargoyle_big",
    "some_unknown", "entity", "z_string_list", "z_custom", "z_", "z_button", "{odd{", "filth_switch", "unknown_type", "",
    "enemy_butler", "enemy_hawk", "enemy_wolf", "enemy_critter", "enemy_spring_ball", "enemy_trash_can", "enemy_book",
    "enemy_slime_barrel", "enemy_slime_ball", "enemy_trash_beast", "enemy_trash_ball", "enemy_stonebro", "enemy_flag", "enemy_chest_scrolls",
    "enemy_knight", "enemy_gargoyle_small", "enemy_tutorial_square", "enemy_porcupine", "enemy_scrolls", "enemy_treasure", "enemy_maid",
    "dust_girl", "dust_kid", "dust_worth", "dust_wraith", "leaf_sprite", "trash_king", "slime_boss", "ambience_trigger", "music_trigger",
    "special_trigger", "base_trigger", "level_door", "vsim_user", "z_vsim_user",
)
CED = (0, 1, -1, 15, 16, 17, -15, -16, -17, 255, 256, 257, -255, -256, -257, 511, 512, -512)


def gen_coord(rng, style):
    k = rng.random()
    if style == "small":
        return rng.randint(-20, 20)
    if k < 0.5:
        return rng.choice(CED)
    if k < 0.9:
        return rng.randint(-600, 600)
    return rng.choice([-32768 * 256, 32767 * 256 + 255, 32767 * 256, 100000, -100000, rng.randint(-32768 * 256, 32767 * 256)])


def gen_edge(rng, filth, angle_lim=127):
    def ang():
        return rng.choice([0, 0, rng.randint(-90, 90), rng.randint(-angle_lim, angle_lim), angle_lim, -angle_lim, -128 if angle_lim == 127 else 0])

    e = [rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), ang(), ang(), 0, 0, 0, 0, 0, 0]
    if filth and rng.random() < 0.6:
        e[6:] = [rng.randint(1, 7), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), ang(), ang()]
        if rng.random() < 0.15:
            e[6] = 0  # not filth, but stored when another side of the tile has some
    return e


DUSTBLOCK = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}


def gen_tile(rng, layer, x, y, angle_lim=127):
    filth = rng.random() < (0.4 if layer == 19 else 0.08)  # elsewhere it is not stored
    sset = rng.randint(0, 7)
    st = rng.choice([0, 1, 255, rng.randint(0, 255)])
    if sset in DUSTBLOCK and rng.random() < 0.2:
        st = DUSTBLOCK[sset]
    edges = [gen_edge(rng, filth, angle_lim) for _ in range(4)] if rng.random() < 0.8 else [list(NOEDGE) for _ in range(4)]
    if rng.random() < 0.05:  # nothing but a shape
        return [layer, x, y, rng.choice([0, 0, rng.randint(0, 20)]), 4, 0, 0, 0, [list(NOEDGE) for _ in range(4)]]
    return [layer, x, y, rng.randint(0, 20), rng.choice([4, 4, 4, rng.randint(0, 7)]), sset, st, rng.choice([0, 1, 15, rng.randint(0, 15)]), edges]


def gen_tiles(rng, n, style, angle_lim=127):
    out = {}
    cx, cy = gen_coord(rng, style), gen_coord(rng, style)
    for _ in range(n):
        layer = rng.choice([19, 19, 0, 20, 18, rng.randint(0, 20)])
        if rng.random() < 0.03:
            layer = rng.choice([21, 255, rng.randint(21, 255)])
        k = rng.random()
        if k < 0.1 and out:  # on top of one in another layer
            _, x, y = rng.choice(list(out))
        elif k < 0.5:
            x, y = cx + rng.randint(-3, 3), cy + rng.randint(-3, 3)
        else:
            x, y = gen_coord(rng, style), gen_coord(rng, style)
        x = max(-32768 * 256, min(32767 * 256 + 255, x))
        y = max(-32768 * 256, min(32767 * 256 + 255, y))
        out[(layer, x, y)] = gen_tile(rng, layer, x, y, angle_lim)
    return list(out.values())


def gen_id(rng, used):
    while True:
        i = rng.choice([rng.randint(0, 300), rng.randint(100, 5000), 2**31 - 1, 0, 99, 100, 101, rng.randint(0, 2**31 - 1)])
        if i not in used:
            used.add(i)
            return i


def gen_pxy(rng, style, prop):
    k = rng.random()
    if style == "small":
        v = float(rng.randint(-1000, 1000))
    elif k < 0.3:
        v = float(rng.choice(CED) * 48)
    elif k < 0.8:
        v = float(rng.randint(-40000, 40000))
    else:
        v = float(rng.randint(-(2**27) + 1, 2**27 - 1) if prop else rng.randint(-(2**28), 2**28))
    if rng.random() < 0.35:
        if prop:
            v += rng.choice([0.25, 0.5, -0.5]) if abs(v) < 1e6 and rng.random() < 0.3 else 0.0
        else:
            v += rng.randrange(128) / 128.0
            if rng.random() < 0.2:
                v += rng.random() / 128.0
    return v


def gen_prop(rng, pid, style):
    return [
        pid, rng.choice([0, 12, 255, rng.randint(0, 255)]), gen_pxy(rng, style, True), gen_pxy(rng, style, True), rng.choice([0, 255, rng.randint(0, 255)]),
        rng.choice([0, 0x4000, 0xFFFF, 0x8000, rng.randint(0, 0xFFFF)]), rng.randint(0, 1), rng.randint(0, 1), rng.choice([32, 0, 48, 28, 35, rng.randint(0, 48), rng.randint(0, 55)]),
        rng.choice([0, 255, rng.randint(0, 255)]), rng.choice([0, 4095, rng.randint(0, 4095)]), rng.choice([0, 4095, rng.randint(0, 4095)]), rng.choice([0, 255, rng.randint(0, 255)]),
    ]


def gen_entity(rng, eid, style, big=0.0, nvars=None):
    nv = rng.choice([0, 0, 1, 2, 3]) if nvars is None else nvars
    return [
        eid, gen_pxy(rng, style, False), gen_pxy(rng, style, False), rng.choice(ETYPE_POOL), gen_vmap(rng, nv, 2, big),
        rng.choice([0, 0x4000, 0xFFFF, rng.randint(0, 0xFFFF)]), rng.choice([18, 0, 255, rng.randint(0, 255)]), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1),
    ]


def pick_n(rng, scale):
    return rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13]) if scale > 1 else rng.choice([0, 1, 1, 2, 3])


def gen_level(rng, scale=2, big=0.0, angle_lim=127, dense=0.0):
    """Swarm style: each run draws which features it uses."""
    style = rng.choice(["small", "edge", "edge"])
    used = set()
    on = {f: rng.random() < 0.75 for f in ("tiles", "props", "entities", "bd_tiles", "bd_props", "vars", "sshot")}
    s = {
        "tiles": gen_tiles(rng, pick_n(rng, scale) * (2 if scale > 1 else 1), style, angle_lim) if on["tiles"] else [],
        "props": [gen_prop(rng, gen_id(rng, used), style) for _ in range(pick_n(rng, scale))] if on["props"] else [],
        "entities": [],
        "bd_tiles": [],
        "bd_props": [],
        "vars": gen_vmap(rng, pick_n(rng, scale), 2, big) if on["vars"] else [],
        "sshot": gen_bytes(rng, 0.02, 40) if on["sshot"] else "",
    }
    eused = set() if rng.random() < 0.3 else used
    if on["entities"]:
        s["entities"] = [gen_entity(rng, gen_id(rng, eused), style, big) for _ in range(pick_n(rng, scale))]
    if on["bd_tiles"]:
        s["bd_tiles"] = [t for t in gen_tiles(rng, pick_n(rng, scale), "small" if style == "small" else "edge", angle_lim) if -32768 * 16 <= t[1] <= 32767 * 16 + 15 and -32768 * 16 <= t[2] <= 32767 * 16 + 15]
    if on["bd_props"]:
        s["bd_props"] = [gen_prop(rng, gen_id(rng, used), style) for _ in range(pick_n(rng, scale))]
    if dense and rng.random() < dense:
        add_dense(rng, s, used, style)
    if rng.random() < 0.12:
        share_ids(rng, s)
    s["vars"] = [kv for kv in s["vars"] if kv[0] not in ("level_type",)]
    if rng.random() < 0.2:
        s["vars"].append(["level_type", ["i", rng.choice([0, 1, 6])]])
    return s


def share_ids(rng, s):
    """Let objects of different kinds use the same IDs, as nothing forbids it."""
    ids = [q[0] for k in ("props", "entities", "bd_props") for q in s[k]]
    for k in ("entities", "bd_props", "props"):
        have = {q[0] for q in s[k]}
        for q in s[k]:
            i = rng.choice(ids)
            if rng.random() < 0.6 and i not in have:
                have.discard(q[0])
                q[0] = i
                have.add(i)


def add_dense(rng, s, used, style):
    """A full 16x16 segment layer, or many props/entities in one segment."""
    k = rng.choice(["tiles", "props", "entities", "tiles", "props", "entities", "regions", "segments", "layers", "regions"])
    if k in ("regions", "segments", "layers"):
        have = {(t[0], t[1], t[2]) for t in s["tiles"]}
        ox, oy = rng.choice([0, -256, 512]), rng.choice([0, -256, -16])
        if k == "regions":
            n = rng.choice([5, 17, 258])
            spots = [(19, ox + 256 * (i % 16) + 3, oy + 256 * (i // 16) + 5) for i in range(n)]
        elif k == "segments":
            spots = [(19, ox + 16 * x + 3, oy + 16 * y + 5) for y in range(16) for x in range(16)]
            spots += [(19, ox + 16 * 16, oy)]
        else:
            spots = [(layer, ox, oy) for layer in range(200)]
        if rng.random() < 0.3:
            rng.shuffle(spots)
        for layer, x, y in spots:
            if (layer, x, y) not in have:
                s["tiles"].append(gen_tile(rng, layer, x, y, 90))
    elif k == "tiles":
        ox, oy = rng.choice([0, 16, -16, -256]), rng.choice([0, 16, -16])
        layer = rng.choice([19, 19, 5])
        have = {(t[0], t[1], t[2]) for t in s["tiles"]}
        dusty = rng.random() < 0.5  # every one of them
        for y in range(16):
            for x in range(16):
                if (layer, ox + x, oy + y) not in have:
                    t = gen_tile(rng, layer, ox + x, oy + y, 90)
                    if dusty:
                        t[8][rng.randrange(4)][6] = rng.randint(1, 7)
                    s["tiles"].append(t)
    elif k == "props":
        for _ in range(300):
            s["props"].append(gen_prop(rng, gen_id(rng, used), "small"))
    else:
        euse = {e[0] for e in s["entities"]} | used
        for _ in range(rng.choice([70, 260])):
            s["entities"].append(gen_entity(rng, gen_id(rng, euse), "small", 0.0, rng.choice([0, 0, 1])))


EMPTY = {"tiles": [], "props": [], "entities": [], "bd_tiles": [], "bd_props": [], "vars": [], "sshot": ""}

# --------------------------------------------------------------------- replays
# (bits, first version that stores it)
INTENTS = ((2, 1), (2, 1), (2, 1), (2, 1), (2, 1), (4, 1), (4, 1), (4, 3), (16, 4), (16, 4), (8, 4))
RUNS = (1, 1, 2, 3, 7, 252, 253, 254, 255, 256, 257, 508, 509, 510, 511, 512, 1020, 766)


def intent_raw_values(i, rng):
    """Raw stored value for intent i."""
    if i < 2:
        return rng.choice([0, 1, 2])
    if i < 5:
        return rng.choice([0, 1, 2])
    if i < 7:
        return rng.randint(0, 11)
    if i == 7:
        return rng.choice([0, 1, 2])
    if i < 10:
        return rng.choice([0, 1, 32767, 32766, rng.randint(0, 32767)])
    return rng.choice([0, 1, 4, 31, rng.randint(0, 31)])


def intent_default(i):
    return 1 if i < 2 else 0


def gen_runs(rng, i):
    n = rng.choice([0, 0, 1, 1, 2, 3, 5])
    return [[intent_raw_values(i, rng), rng.choice(RUNS)] for _ in range(n)]


def gen_replay(rng, small=False, dense=0.0):
    s = _gen_replay(rng, small)
    if rng.random() < 0.15:
        s["off"] = [rng.choice([0, 2, -3, 4, 1, -4]) for _ in range(rng.choice([1, 2, 3]))]
    if dense and rng.random() < dense:
        k = rng.choice(["entities", "frames", "players", "runs", "name"])
        if k == "entities":
            s["entities"] += [[10**7 + 3 * i, [[i, i, -i, 0, 7]] * rng.choice([0, 1, 2])] for i in range(rng.choice([256, 300]))]
        elif k == "frames":
            s["entities"].append([10**7, [[i * 7, -i * 100, i, 1000 - i, 5] for i in range(rng.choice([255, 256, 300, 3300]))]])
        elif k == "players" and s["version"] > 1:
            s["players"] += [[i % 8, [[0, [[0, 1 + i % 5]]]] if i % 3 == 0 else []] for i in range(rng.choice([1, 3, 13, 256]))]
        elif k == "runs":
            i = rng.choice([0, 2, 5, 6])
            s["players"][0][1] = [q for q in s["players"][0][1] if q[0] != i] + [[i, [[intent_raw_values(i, rng), rng.choice([1, 1, 2, 3])] for _ in range(rng.choice([300, 3000]))] + [[1, rng.choice([1, 3000, 66000])]]]]
        elif k == "name":
            s["username"] = {"n": rng.choice([255, 256, 65535]), "k": 7}
    return s


def _gen_replay(rng, small=False):
    version = rng.choice([1, 3, 4, 4])
    np = 1 if version == 1 else rng.choice([1, 1, 2, 4])
    players = []
    for _ in range(np):
        intents = []
        for i, (_, v) in enumerate(INTENTS):
            if v <= version and rng.random() < 0.6:
                runs = gen_runs(rng, i)
                if small:
                    runs = [[a, min(b, 9)] for a, b in runs[:2]]
                intents.append([i, runs])
        players.append([rng.randint(0, 7), intents])
    ents = []
    seen = set()
    for _ in range(rng.choice([0, 1, 2, 3])):
        uid = rng.choice([1, 2, 3, 2**32 - 1, rng.randint(0, 10**6), rng.randint(1, 9)])
        if uid in seen:
            continue
        seen.add(uid)
        ents.append([uid, [[gen_uint(rng)] + [gen_int(rng) for _ in range(4)] for _ in range(rng.choice([0, 1, 2, 5]))]])
    lv = gen_bytes(rng, 0, 20)
    if not isinstance(lv, str):
        lv = {"n": min(lv["n"], 255), "k": lv["k"]}
    return {
        "version": version,
        "username": rng.choice(["", "bob", gen_bytes(rng, 0, 9)]),
        "force": rng.random() < 0.2,
        "level": lv,
        "frames": gen_uint(rng),
        "players": players,
        "entities": ents,
    }


def trim(vals, d):
    vals = list(vals)
    while vals and vals[-1] == d:
        vals.pop()
    return tuple(vals)


def canon_replay(s):
    if not s.get("wild") and (s["version"] not in (1, 3, 4) or (s["version"] == 1 and len(s["players"]) != 1)):
        raise InvalidPlan("replay version")
    players = []
    for ch, intents in s["players"]:
        m = {}
        for i, runs in intents:
            flat = []
            for v, n in runs:
                flat.extend([v] * n)
            m[i] = flat
        players.append((ch, tuple(trim(m.get(i, ()), intent_default(i)) for i in range(len(INTENTS)) if INTENTS[i][1] <= s["version"])))
    return {
        "version": s["version"], "username": xbytes(s["username"]), "level": xbytes(s["level"]), "frames": s["frames"],
        "players": tuple(players),
        "entities": {uid: tuple(tuple(f) for f in fr) for uid, fr in s["entities"]},
    }


def build_replay(s):
    from dustmaker import replay as rp

    off = [max(-4, min(4, k)) for k in s.get("off", ())]
    nud = off[0] / 10.0 if off else 0.0
    def made(cls, **kw):
        """What is as documented by default is left out."""
        return cls(**{k: v for k, v in kw.items() if v})

    ver = {} if s["version"] == 4 else {"version": s["version"]}
    rep = made(functools.partial(rp.Replay, **ver), username=xbytes(s["username"]), level=xbytes(s["level"]), frames=s["frames"])
    for ch, intents in s["players"]:
        pl = made(rp.PlayerData, character=rp.Character(ch))
        for i, runs in intents:
            vals = []
            for v, n in runs:
                if i < 2:
                    x = v - 1
                elif i in (8, 9):
                    if off:  # between the values that can be stored, changing from frame to frame
                        vals.extend((v + off[k % len(off)] / 10.0) / 32767.0 for k in range(n))
                        continue
                    x = v / 32767.0
                elif i == 10:
                    x = rp.MouseState(v)
                else:
                    x = v
                vals.extend([x] * n)
            pl.intents[rp.IntentStream(i)] = vals
        rep.players.append(pl)
    for uid, frames in s["entities"]:
        rep.entities[uid] = rp.EntityData(
            frames=[made(rp.EntityFrame, frame=f[0], x_pos=(f[1] + nud) / 10.0, y_pos=(f[2] - nud) / 10.0, x_speed=(f[3] + nud) / 100.0, y_speed=(f[4] - nud) / 100.0) for f in frames]
        )
    return rep


def observe_replay(rep):
    from dustmaker import replay as rp

    for p in (1, 2, 3, 4):
        for get, i in ((rep.get_player_entity_data, 2 * p), (rep.get_camera_entity_data, 2 * p + 1)):
            if get(p) is not rep.entities.get(i) or (p == 1 and get() is not get(p)):
                raise Violation("accessor", f"{get.__name__}({p}) does not lead to the data of entity {i}")
    players = []
    for pl in rep.players:
        out = []
        for i in range(len(INTENTS)):
            if INTENTS[i][1] > rep.version:
                continue
            st = rp.IntentStream(i)
            n = len(pl.intents.get(st, ()))
            vals = []
            for f in range(n + 2):
                v = pl.get_intent_value(st, f)
                if i < 2:
                    v = v + 1
                elif i in (8, 9):
                    k = int(round(v * 32767))
                    v = k if abs(k / 32767.0 - v) < 1e-12 else ("off", v)
                else:
                    v = int(v)
                vals.append(v)
            out.append(trim(vals, intent_default(i)))
        players.append((int(pl.character), tuple(out)))

    def q(v, m):
        k = int(round(v * m))
        return k if abs(k / m - v) < 1e-6 * max(1.0, abs(v)) else ("off", v)

    ents = {
        uid: tuple((f.frame, q(f.x_pos, 10.0), q(f.y_pos, 10.0), q(f.x_speed, 100.0), q(f.y_speed, 100.0)) for f in ed.frames)
        for uid, ed in rep.entities.items()
    }
    return {
        "version": rep.version, "username": bytes(rep.username), "level": bytes(rep.level), "frames": rep.frames,
        "players": tuple(players), "entities": ents,
    }


def diff_replay(a, b):
    for k in ("version", "username", "level", "frames"):
        if a[k] != b[k]:
            return f"{k}: {a[k]!r} became {b[k]!r}"
    if len(a["players"]) != len(b["players"]):
        return f"players: {len(a['players'])} became {len(b['players'])}"
    for i, (p, q) in enumerate(zip(a["players"], b["players"])):
        if p[0] != q[0]:
            return f"player {i} character {p[0]} became {q[0]}"
        for j, (x, y) in enumerate(zip(p[1], q[1])):
            if x != y:
                k = next((n for n, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                return f"player {i} intent {j}: differs from frame {k} (active length {len(x)} became {len(y)})"
        if len(p[1]) != len(q[1]):
            return f"player {i}: {len(p[1])} intent streams became {len(q[1])}"
    if a["entities"] != b["entities"]:
        return f"entity data: {str(a['entities'])[:150]} became {str(b['entities'])[:150]}"
    return None
