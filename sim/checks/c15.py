"""C15: command line edits do exactly what was asked, and only that, over histories with failures."""
import json
import random

from .. import cli
from .. import refcodec as rc
from .. import spec as sp
from .. import xform
from ..kernel import InvalidPlan, LineTracer, SimInterrupt, Violation
from ..simfs import SimFS, run_cli

LEVEL = "exploration"
QUICK = 5000
THOROUGH = 150000
CHUNK = 11
RULE = "Each run draws a directory (levels, variable files, save files, images, documents) and a history of command lines, some of them impossible (missing, damaged or foreign inputs, documents that cannot be stored, existing images without --force), some disturbed (failing system call, kill, power loss, full disk, interrupt, closed standard output), some preceded by damage to a file. Oracle after every command: a model of each file's meaning, kept independently and checked through the independent codec; transforms through an independent exact geometric model; printed documents parsed independently; feeding printed documents back is the identity; everything the command is not about is byte for byte as before; status 0 exactly when the job is done."
REAL = ["dustmaker.cmd.* (run as __main__)", "dustmaker reader/writer/level/tile/entity/prop transforms", "Python io, argparse, json, shutil, tempfile"]
STUB = ["kernel and file system (system calls)", "disk", "image library (PIL)", "process death", "standard output"]
ASSUME = ["left-over temporary files after a crash are acceptable", "positions, scales and shifts are such that the result is exactly representable (shifts are whole tiles)", "edge data of sides that the shape does not have is unspecified", "the size of props and backdrop tiles under upscaling is not judged"]

SPECIAL = {
    "check_point": ("trigger_area",), "level_end_prox": ("trigger_area",), "AI_controller": ("nodes",), "kill_box": ("width", "height"),
    "camera_node": ("zoom_h", "width"), "enemy_key": ("lastKnowX", "lastKnowY", "dm_scale"),
}
ETYPES = tuple(SPECIAL) * 2 + ("enemy_bear", "hittable_apple", "dust_man", "level_end", "z_custom", "text_trigger", "enemy_door", "entity_emitter", "{odd", "enemy_hawk", "fog_trigger")
COPY = ("citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook")
BOOKS = ("downhill shadedgrove dahlia fields|momentum fireflyforest tunnels momentum2|suntemple ascent summit grasscave|den autumnforest garden hyperdifficult|"
         "atrium secretpassage alcoves mezzanine|cave cliffsidecaves library courtyard|precarious treasureroom arena ramparts|moontemple observatory parapets brimstone|"
         "vacantlot sprawl development abandoned|park boxes chemworld factory|tunnel basement scaffold cityrun|clocktower concretetemple alley hideout|"
         "control ferrofluid titan satellite|vat venom security mary|wiringfixed containment orb pod|mary2 coretemple abyss dome")
KEY_OF = {n.encode(): i % 4 for i, row in enumerate(BOOKS.split("|")) for n in row.split()}


# ------------------------------------------------------------------------------ plans
def gen_tlevel(rng):
    """A level whose transforms are exactly representable."""
    s = {"tiles": [], "props": [], "entities": [], "bd_tiles": [], "bd_props": [], "vars": [], "sshot": sp.gen_bytes(rng, 0.02, 40)}

    def tiles(n):
        out = {}
        for _ in range(n):
            layer = rng.choice([19, 19, 0, 20, rng.randint(0, 20)])
            x, y = (rng.randint(-4, 4), rng.randint(-4, 4)) if rng.random() < 0.6 else (rng.choice([0, 15, 16, -1, -16, -17, 255, 256, -256, -257, 300]), rng.choice([0, 15, 16, -1, -16, 255, -256, -300]))
            t = sp.gen_tile(rng, layer, x, y, 90)
            for side in range(4):
                if not xform.side_exists(t[3], side):
                    t[8][side] = list(sp.NOEDGE)
            out[(layer, x, y)] = t
        return list(out.values())

    used = set()

    def prop():
        q = sp.gen_prop(rng, sp.gen_id(rng, used), "small")
        q[2], q[3] = float(rng.randint(-20000, 20000)), float(rng.choice([0, 48, -1, 767, 768, rng.randint(-20000, 20000)]))
        q[8] = rng.choice([32, 32, 28, 35, 38, 44])
        return q

    s["tiles"] = tiles(rng.choice([0, 1, 3, 6, 12]))
    s["bd_tiles"] = tiles(rng.choice([0, 0, 1, 3]))
    s["props"] = [prop() for _ in range(rng.choice([0, 1, 2, 4]))]
    s["bd_props"] = [prop() for _ in range(rng.choice([0, 0, 1, 2]))]
    for _ in range(rng.choice([0, 1, 2, 4])):
        e = sp.gen_entity(rng, sp.gen_id(rng, used), "small", 0.0, rng.choice([0, 0, 1, 2]))
        e[1] = rng.randint(-20000, 20000) + rng.choice([0, 0, 0.5, 1 / 128, 3 / 128])
        e[2] = rng.randint(-20000, 20000) + rng.choice([0, 0, 0.5, 1 / 128, 127 / 128])
        e[3] = rng.choice(ETYPES)
        keys = SPECIAL.get(e[3], ()) + ("dm_scale",)
        e[4] = [kv for kv in e[4] if kv[0] not in keys]
        for k in SPECIAL.get(e[3], ()):
            if rng.random() < 0.75:
                e[4].insert(rng.randint(0, len(e[4])), [k, special(rng, k)])
        s["entities"].append(e)
    s["vars"] = [kv for kv in sp.gen_vmap(rng, rng.choice([0, 1, 3]), 2) if kv[0] not in ("level_type", "icon_taken") and not kv[0].startswith("p")]
    for k in ("p1_x", "p1_y", "p2_x", "p4_y"):
        if rng.random() < 0.4:
            s["vars"].append([k, ["i", rng.randint(-20000, 20000)]])
    if rng.random() < 0.35:
        s["vars"].insert(rng.randint(0, len(s["vars"])), ["level_type", ["i", rng.choice([0, 0, 1, 6])]])
    if rng.random() < 0.3:
        s["vars"].insert(rng.randint(0, len(s["vars"])), ["icon_taken", rng.choice([["b", False], ["b", True]])])
    return s


def special(rng, k):
    def v():
        return ["v", [rng.randint(-4000, 4000) / 8, rng.randint(-4000, 4000) / 8]]

    if k in ("trigger_area", "nodes"):
        return ["a", "v", [v() for _ in range(rng.choice([0, 1, 4]))]]
    if k in ("lastKnowX", "lastKnowY"):
        return ["f", rng.randint(-4000, 4000) / 8]
    if k == "dm_scale":
        return ["f", rng.choice([0.5, 1.0, 1.5, 2.0])]
    return ["i", rng.choice([0, 1, 480, 1080, rng.randint(0, 3000)])]


def gen_t(rng, budget):
    t = cli.gen_transform(rng)
    if t["upscale"] != 1 and not budget:
        t["upscale"] = 1
    if rng.random() < 0.1:
        t["upscale"] = rng.choice([0, -1])  # not an upscale
    return t


def gen_disturb(rng):
    k = rng.random()
    if k < 0.5:
        return {"how": "op", "at": rng.choice([rng.random(), 0.98]), "kind": rng.choice(["kill", "kill", "power", "EIO", "ENOSPC", "EACCES"]), "sticky": rng.random() < 0.3, "seed": rng.randrange(10**6)}
    if k < 0.7:
        return {"how": "line", "at": rng.random()}
    if k < 0.85:
        return {"how": "cap", "at": rng.random()}
    return {"how": "stdout", "at": rng.randint(0, 60)}


LEVELS, CFGS = ("a.lvl", "b.lvl"), ("c0", "c1")
#: every file the user knows of; others are left-overs of killed runs
NAMES = frozenset(LEVELS + CFGS) | {"c2", "t.lvl", "s0", "s1", "i0", "i1", "x0", "x1", "d0", "d1", "bad", "fed", "nofile"}


def gen(rng, tier):
    p = {
        "levels": [gen_tlevel(rng), gen_tlevel(rng)], "opts": [{"ver": 44, "segver": rng.choice([7, 8, 8])} for _ in range(2)],
        "cfg": sp.gen_vmap(rng, rng.choice([0, 1, 3]), 2), "stats": gen_stats(rng), "docs": [sp.gen_vmap(rng, rng.choice([0, 1, 2, 4]), 2) for _ in range(2)],
        "imgs": [sp.gen_bytes(rng, 0.0, 30), {"n": rng.choice([0, 3000, 9000]), "k": 5}], "entry": rng.random() < 0.4, "steps": [],
    }
    for d in p["docs"]:
        d[:] = [kv for kv in d if kv[0] not in ("level_type",) and not kv[0].startswith("p")]
    ups = 0
    for _ in range(rng.choice([2, 3, 5, 8])):
        k = rng.choice(["thumb-x", "thumb-u", "thumb-u", "vars-p", "vars-u", "vars-u", "transform", "transform", "saveconvert", "feed", "feed"])
        c = {"cmd": k}
        lv = rng.choice(LEVELS)
        anyf = rng.choice(LEVELS + LEVELS + CFGS + ("s0", "nofile", "i0"))
        if k == "thumb-x":
            c.update(level=rng.choice([lv, lv, lv, anyf]), image=rng.choice(["x0", "x1", "i0"]), force=rng.random() < 0.4)
        elif k == "thumb-u":
            c.update(nopil=rng.random() < 0.15, level=rng.choice([lv, lv, lv, lv, anyf]), image=rng.choice(["i0", "i1", "x0", "x1"]), how=rng.choice(["update", "update", "convert", "scale"]), force=rng.random() < 0.2)
        elif k == "vars-p":
            c.update(object=anyf, indent=rng.choice([None, 0, 1, 4]))
        elif k == "vars-u":
            c.update(object=anyf, json=rng.choice(["d0", "d1", "d0", "d1", "bad"]))
            if rng.random() < 0.25:
                c["header"] = rng.choice(["DF_CFG", "DF_STA", "DF_FOG", "DF_XXX", "DF_LVL"])
                c["object"] = rng.choice(["c0", "c1", "c2", "b.lvl"])
            if c["json"] == "bad":
                c["bad"] = rng.randint(0, len(cli.BAD_DOCS))
        elif k == "transform":
            c.update({"in": rng.choice([lv, lv, lv, anyf]), "out": rng.choice(["a.lvl", "b.lvl", "t.lvl"]), "t": gen_t(rng, ups < 2)})
            ups += c["t"]["upscale"] > 1
        elif k == "saveconvert":
            c.update({"in": rng.choice(["s0", "s0", "c0"]), "out": rng.choice(["s1", "s1", "s0"])})
        else:  # print, then feed the output back
            c.update(object=anyf, indent=rng.choice([None, 0, 4]))
        if rng.random() < 0.25:
            c["disturb"] = gen_disturb(rng)
        if rng.random() < 0.06:
            c["damage"] = [rng.choice(LEVELS + CFGS), rng.randint(0, 20)]
        p["steps"].append(c)
    return p


def gen_stats(rng):
    s = cli.gen_stats(rng)
    for k, v in s:
        if k == "score":
            for sc in v[2]:
                for kv in sc[1]:
                    if kv[0] == "file_name" and rng.random() < 0.7:
                        kv[1][1] = rng.choice(sorted(KEY_OF)).decode()
    for k in rng.sample(COPY, rng.randint(0, 3)):
        s.insert(rng.randint(0, len(s)), [k, sp.gen_var(rng, 1)])
    return s


# ------------------------------------------------------------------------------ model
class Model:
    """What each file means: ("level", canon, region bytes, directory, uid) | ("var", header, canon) | ("raw", bytes)."""

    def __init__(self):
        self.f = {}


def meaning(data):
    if data[:6] == b"DF_LVL":
        try:
            c, info = rc.dec_level(data, 0)
        except rc.FormatError:
            return ("raw", data)
        if info["end"] != len(data):
            return ("raw", data)
        return ("level", c, data[info["base"] : info["end"]], tuple(info["offs"]), info["uid"])
    for h in (b"DF_STA", b"DF_CFG", b"DF_FOG"):
        if data[:6] == h:
            try:
                got = rc.dec_varfile(data, h)
            except rc.FormatError:
                return ("raw", data)
            return ("var", h, got[0] if isinstance(got, tuple) and len(got) == 2 and isinstance(got[1], int) else got)
    return ("raw", data)


def migrate(canon):
    """Independent model of the save conversion; None if the input cannot be used."""
    d = dict(canon)
    out = {k: v for k, v in canon if k in COPY}
    used = [0, 0, 0, d["red_used"][1] if "red_used" in d else 0]
    rows = []
    for sc in d.get("score", ("a", "t", ()))[2]:
        m = dict(sc[1])
        if not {"file_name", "combo", "time", "thorough", "best_time", "overall"} <= set(m):
            return None
        key = KEY_OF.get(m["file_name"][1])
        if key is None:
            continue
        if key:
            used[key - 1] += 1
        rows.append((m["file_name"][1], {
            "rind": ("i", 0), "file_name": m["file_name"], "combo": m["combo"], "time": m["time"], "thorough": m["thorough"], "best_time": m["best_time"],
            "overall": m["overall"], "key_type": ("i", 4 if key == 0 else key),
        }))
    rows.sort(key=lambda r: r[0])
    return out, rows, used


def diff_migrated(canon, got):
    out, rows, used = migrate(canon)
    g = dict(got)
    for k, v in out.items():
        if g.get(k) != v:
            return f"{k} is {g.get(k)!r}, was {v!r}"
    have = [dict(x[1]) for x in g.get("k_score", ("a", "t", ()))[2]]
    if len(have) != len(rows):
        return f"{len(have)} scores instead of {len(rows)}"
    for h, (_, w) in zip(have, rows):
        if h != w:
            return f"score {h!r} instead of {w!r}"
    for n, u in zip(("wood", "silver", "gold", "red"), used):
        if g.get(f"k_{n}_used") != ("a", "i", (("i", u),)):
            return f"k_{n}_used is {g.get(f'k_{n}_used')!r} instead of {u}"
    for k, v in (("k_root", ("a", "s", (("s", b""),))), ("k_ngplus", ("a", "b", (("b", False),)))):
        if g.get(k) != v:
            return f"{k} is {g.get(k)!r} instead of {v!r}"
    return None


class Refused(Exception):
    """The model: this command cannot do its job."""


class Open(Exception):
    """The model: failing is acceptable, and so is succeeding."""


def expect(c, before):
    """-> (target name, verify(bytes) -> problem or None) or raises Refused. `before`: name -> bytes."""
    k = c["cmd"]

    def need(name):
        if name not in before:
            raise Refused("missing")
        return before[name]

    if k == "thumb-x":
        m = meaning(need(c["level"]))
        if m[0] != "level":
            raise Refused("not a level")
        if c["image"] in before and not c.get("force"):
            raise Refused("exists")
        return c["image"], lambda d: None if d == m[1]["sshot"] else f"image of {len(d)} bytes instead of the thumbnail of {len(m[1]['sshot'])}"
    if k == "thumb-u":
        m = meaning(need(c["level"]))
        img = need(c["image"])
        if m[0] != "level":
            raise Refused("not a level")
        if c.get("how") in ("convert", "scale"):
            if c.get("nopil"):
                raise Refused("no image library")
            img = cli.convert(img, c["how"] == "scale")
            if img is None:
                raise Refused("not an image")

        def verify(d):
            g = meaning(d)
            if g[0] != "level":
                return "not a complete level any more"
            if g[1]["sshot"] != img:
                return f"thumbnail of {len(g[1]['sshot'])} bytes {g[1]['sshot'][:20]!r} instead of the image of {len(img)} bytes {img[:20]!r}"
            if dict(g[1]["vars"]).get("icon_taken") != ("b", True):
                return "icon not marked as taken"
            return same_rest(m, g, [kv for kv in m[1]["vars"] if kv[0] != "icon_taken"], [kv for kv in g[1]["vars"] if kv[0] != "icon_taken"])

        return c["level"], verify
    if k == "vars-u":
        doc = need(c["json"])
        try:
            j = json.loads(doc.decode())
            want = cli.undoc(j["schema"], j["vars"])[1]
        except Exception:  # pylint: disable=broad-except
            raise Refused("document") from None
        if c.get("bad") is not None:
            raise Refused("document")
        if c.get("header"):
            h = c["header"].encode()
            if h not in (b"DF_STA", b"DF_CFG", b"DF_FOG"):
                raise Refused("header")
        else:
            m = meaning(need(c["object"]))
            if m[0] == "raw" and m[1][:6] in (b"DF_STA", b"DF_CFG", b"DF_FOG"):
                # damaged, but all of it gets replaced: may be done or refused
                m = ("var", m[1][:6])
                c["optional"] = True
            if m[0] == "raw":
                raise Refused("object")
            h = m[1]
            if m[0] == "level":

                def verify_level(d):
                    g = meaning(d)
                    if g[0] != "level":
                        return "not a complete level any more"
                    if g[1]["sshot"] != m[1]["sshot"]:
                        return "thumbnail changed"
                    return same_rest(m, g, list(want), list(g[1]["vars"]))

                return c["object"], verify_level

        def verify_var(d):
            g = meaning(d)
            if g[0] != "var" or g[1] != h:
                return f"not a {h!r} file"
            return sp.diff_vmap(want, g[2])

        return c["object"], verify_var
    if k == "transform":
        m = meaning(need(c["in"]))
        if m[0] != "level":
            raise Refused("not a level")

        def verify_t(d):
            g = meaning(d)
            if g[0] != "level":
                return "not a complete level"
            return xform.diff_level(m[1], g[1], c["t"])

        return c["out"], verify_t
    if k == "saveconvert":
        m = meaning(need(c["in"]))
        if m[0] != "var" or m[1] != b"DF_STA":
            raise Refused("not a save")
        try:
            if migrate(m[2]) is None:
                raise Open()
        except (TypeError, KeyError, ValueError, IndexError):
            raise Open() from None

        def verify_s(d):
            g = meaning(d)
            if g[0] != "var" or g[1] != b"DF_STA":
                return "not a save file"
            return diff_migrated(m[2], g[2])

        return c["out"], verify_s
    raise InvalidPlan("command")


def same_rest(m, g, want, got):
    d = sp.diff_vmap(tuple(want), tuple(got))
    if d:
        return d
    if g[2] != m[2]:
        return f"region data changed ({len(m[2])} bytes, now {len(g[2])})"
    if g[3] != m[3]:
        return "region directory changed"
    if g[4] < m[4]:
        return f"next ID went back from {m[4]} to {g[4]}"
    return None


def check_printed(c, before, res):
    """A print: (must succeed?, problem)."""
    if c["object"] not in before:
        return False, None
    m = meaning(before[c["object"]])
    if m[0] == "raw":
        return False, None
    canon = m[1]["vars"] if m[0] == "level" else m[2]
    can = True
    try:
        cli.doc(canon)
    except cli.Conflict:  # no common schema: may be refused, but not printed as something else
        can = None
    if res.code != 0:
        return can, None
    try:
        j = json.loads(res.out)
        got = cli.undoc(j["schema"], j["vars"])[1]
    except Exception as e:  # pylint: disable=broad-except
        return can, f"printed document is unusable: {type(e).__name__} {res.out[:100]!r}"
    return can, sp.diff_vmap(canon, got)


# -------------------------------------------------------------------------------- run
def run(plan, world):
    files = {
        "a.lvl": rc.enc_level(plan["levels"][0], plan["opts"][0]), "b.lvl": rc.enc_level(plan["levels"][1], plan["opts"][1]),
        "c0": rc.enc_varfile(b"DF_CFG", plan["cfg"]), "s0": rc.enc_varfile(b"DF_STA", plan["stats"]), "i0": sp.xbytes(plan["imgs"][0]), "i1": sp.xbytes(plan["imgs"][1]),
    }
    for i, v in enumerate(plan["docs"]):
        try:
            files[f"d{i}"] = json.dumps(cli.doc(sp.canon_vmap(v))).encode()
        except cli.Conflict:
            files[f"d{i}"] = b'{"vars": {"k": 5}, "schema": {"k": "int"}}'
    for i, c in enumerate(plan["steps"]):
        if c.get("damage"):
            n, cut = c["damage"]
            if n in files:
                files[n] = files[n][:cut]
                world.fault("damaged-file")
        if c["cmd"] == "feed":
            p = {"cmd": "vars-p", "object": c["object"], "indent": c.get("indent")}
            files, res = step(plan, world, i, p, files)
            if res.code == 0:
                files = {**files, "fed": res.out.encode()}
                before = files.get(c["object"])
                u = {"cmd": "vars-u", "object": c["object"], "json": "fed", "disturb": c.get("disturb")}
                files, res = step(plan, world, i, u, files)
                if res.code == 0 and before is not None:
                    a, b = meaning(before), meaning(files[c["object"]])
                    if a[0] == "level":
                        a, b = (a[1]["vars"],) + a[2:4], (b[1]["vars"],) + b[2:4]
                    if a != b:
                        raise Violation("feedback", f"step {i}: feeding the printed variables of {c['object']} back changes it: {a!r:.150} becomes {b!r:.150}")
                    world.probe("fed-back")
        else:
            files, _ = step(plan, world, i, c, files)


def step(plan, world, i, c, files):
    """One command; files that are not in NAMES are left-overs of killed runs."""
    if c.get("bad") is not None:
        files = {**files, "bad": cli.bad_doc(c["bad"])}
    c = dict(c)
    c.pop("optional", None)
    entry, argv = cli.argv_of(c)
    if not plan.get("entry"):
        entry = "main"
    mods = {"PIL": None, "PIL.Image": None} if c.get("nopil") else cli.fake_pil()
    refused = opened = False
    target = verify = None
    if c["cmd"] != "vars-p":
        try:
            target, verify = expect(c, files)
        except Refused:
            refused = True
        except Open:
            opened = True
    fs = SimFS(world, files, [])
    fs.pid += i % 3
    tr, cap = None, None
    f = c.get("disturb")
    if f:
        probe = SimFS(world, files, [])
        probe.pid = fs.pid
        ptr = LineTracer()
        run_cli(probe, argv, entry, tracer=ptr, modules=mods)
        if f["how"] == "op":
            if f["kind"] not in ("kill", "power", "EIO", "ENOSPC", "EACCES"):
                raise InvalidPlan("kind")
            fs.faults = [{"at": int(f["at"] * probe.ops), "kind": f["kind"], "sticky": f.get("sticky")}]
        elif f["how"] == "line":
            tr = LineTracer(raise_at=max(1, int(f["at"] * ptr.n)), exc=SimInterrupt())
        elif f["how"] == "cap":
            fs.cap = int(f["at"] * (sum(len(v) for v in probe.view().values()) + 10))
        elif f["how"] == "stdout":
            cap = f["at"]
        else:
            raise InvalidPlan("how")
    res = run_cli(fs, argv, entry, tracer=tr, stdout_cap=cap, modules=mods)
    disturbed = bool(fs.fired) or fs.cap is not None or (tr is not None and tr.fired) or cap is not None
    if tr is not None and tr.fired:
        world.fault("interrupt@line")
    if cap is not None:
        world.fault("stdout-closed")
    what = f"step {i} `{' '.join(argv)[:150]}`"
    if disturbed:
        what += f" ({f['how']} {f.get('kind', '')})"
    view = fs.view()
    if f and f.get("kind") == "power" and fs.fired:
        view = fs.power_view(random.Random(f["seed"]))
    now = {n[5:]: bytes(d) for n, d in view.items() if n.startswith("work/")}
    world.log(i, c["cmd"], res.code, res.killed, refused)
    if c["cmd"] == "vars-p":
        can, problem = check_printed(c, files, res)
        if can is False and res.code == 0 and not res.killed:
            raise Violation("false-success", f"{what} has nothing to print but exits with status 0")
        if can and not disturbed and res.code != 0:
            raise Violation("unexpected-error", f"{what} fails: exit {res.code} {res.exc!r} {res.errtext[-200:]!r}")
        if problem:
            raise Violation("printed", f"{what}: {problem}")
        if can and res.code == 0:
            world.probe("printed")
    for n in sorted(set(files) | set(now)):
        if n == target:
            continue
        if now.get(n) != files.get(n):
            if n not in NAMES and (disturbed or n in files):
                continue  # left-over of a disturbed run
            raise Violation("bystander", f"{what} changed {n} ({'absent' if n not in files else len(files[n])} -> {'gone' if n not in now else len(now[n])} bytes) although it is not its output")
    if refused:
        if res.code == 0 and not res.killed:
            raise Violation("false-success", f"{what} cannot do its job but exits with status 0")
        world.probe("refused-command")
    elif target is not None:
        done = now.get(target) is not None and (now[target] != files.get(target) or res.code == 0)
        if res.code == 0 and now.get(target) is None:
            raise Violation("not-written", f"{what} exits with status 0 without writing {target}")
        if done:
            problem = verify(now[target])
            if problem:
                raise Violation("wrong-result", f"{what}, exit status {res.code}: {target}: {problem}")
            if res.code not in (0, None) and not disturbed:
                raise Violation("unexpected-error", f"{what} does its job but exits with {res.code} {res.exc!r}")
            world.probe("done-" + c["cmd"])
        elif res.code != 0 and not disturbed and not c.get("optional"):
            raise Violation("unexpected-error", f"{what} fails: exit {res.code} {res.exc!r} {res.errtext[-200:]!r}")
        elif now.get(target) != files.get(target):
            raise Violation("damaged", f"{what}: {target} is gone")
        else:
            world.probe("undone-after-fault")
    elif opened and res.code == 0:
        world.probe("open")
    return now, res
