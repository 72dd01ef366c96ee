"""C20: files in every supported format variant load as the game stores them."""
import io

from .. import objs
from .. import refcodec as rc
from .. import spec as sp
from ..kernel import InvalidPlan, Violation, attempt, must
from ..streams import Store, gen_rcfg, open_stream

LEVEL = "exploration"
QUICK = 14000
THOROUGH = 500000
CHUNK = 60
RULE = "Each run encodes a level with an independent encoder in a drawn format variant (level versions 43-45, segment versions 4-8, deleted entries, repeated IDs, shuffled regions, segments and layers, dust on missing tiles, padding, other compression levels, odd reserved fields, extended names) and loads it whole, metadata first or region by region from a drawn stream (short reads, forward-only); or does so with a replay (versions 1, 3 and 4, with and without user name header, any way to divide runs, unused fields, padding) or a variable file; or damages version or header fields. Oracle: content equals what an independent decoder finds; unsupported versions and wrong headers raise."
REAL = ["dustmaker.dfreader", "dustmaker.bitio", "dustmaker.level/tile/prop/entity/variable", "zlib", "io.Buffered* when drawn"]
STUB = ["raw stream and storage medium", "the programs that wrote the files (independent encoder)"]
ASSUME = ["DUSTMOD levels with backdrop props in segment version 6 or older are left out: how the game stores them is not documented"]


def gen_opt(rng):
    opt = {}
    for k, vals, p in (
        ("ver", [43, 44, 45, 50], 0.35), ("segver", [4, 5, 6, 7, 8], 0.5), ("shuffle", [1, 2, 3, 17, 50], 0.4), ("junk", [1, 0x5A, 0xFFFF], 0.3),
        ("stray_dust", [1, 3], 0.25), ("pad", [1, 5, 40], 0.25), ("zlevel", [0, 1, 9], 0.3), ("regver", [13, 14, 15], 0.2), ("bdflag", [1, 255], 0.2),
        ("mtdver", [2, 3, 4], 0.2), ("uid", [0, 5, 2**31, 2**32 - 1], 0.15),
    ):
        if rng.random() < p:
            opt[k] = rng.choice(vals)
    if rng.random() < 0.2:
        opt["extnames"] = ["enemy_bear", "some_unknown"]
    return opt


def gen_other(rng):
    """A replay or variable file of another program."""
    kind = rng.choice(["replay", "replay", "var"])
    opt = {}
    for k, vals, p in (
        ("np", [0, 1, 2, 5, 0xFFFF], 0.5), ("split", [1, 2, 3, 7, 19], 0.6), ("last", [0, 1, 2], 0.4), ("ipad", [1, 3, 20], 0.3), ("ruid", [1, 77, 2**32 - 1], 0.4),
        ("zlevel", [0, 1, 9], 0.4), ("ver", [0, 2, 9, 65535], 0.5),
    ):
        if rng.random() < p:
            opt[k] = rng.choice(vals)
    return {"kind": kind, "spec": objs.gen_obj(rng, kind, dense=0.01), "opt": opt, "r": [gen_rcfg(rng, forward=0.4) for _ in range(2)], "start": rng.choice([0, 0, 3]), "known": rng.random() < 0.4, "tail": rng.choice([0, 0, 9])}


def run_other(plan, world):
    from dustmaker.dfreader import DFReader

    kind, s, opt = plan["kind"], plan["spec"], plan["opt"]
    if kind == "replay":
        body, _ = rc.enc_replay(s, opt.get("zlevel", 6), opt)
        want, end = rc.dec_replay(body, strict=False)
        if end != len(body):
            raise InvalidPlan("encoder")
    elif kind == "var":
        body = rc.enc_varfile(s["header"].encode(), s["vars"], opt.get("ver", 1) & 0xFFFF)
        want, _ = rc.dec_varfile(body, s["header"].encode())
    else:
        raise InvalidPlan("kind")
    data = b"\x77" * plan["start"] + body + b"\xff" * plan["tail"]
    world.probe(kind + "-variant")
    for cfg in plan["r"]:
        h = open_stream(world, Store(data), {**cfg, "pos": plan["start"]}, "r")
        r = DFReader(h.f)
        got = objs.observe(kind, must(objs.load, f"loading a {kind} with {opt}", r, kind, s, len(body) if plan["known"] else None))
        d = objs.diff(kind, want, got)
        if d:
            raise Violation("content", f"{kind} with {opt}: {d}")
        world.log("loaded", kind, len(data))


def gen(rng, tier):
    if rng.random() < 0.25:
        return gen_other(rng)
    s = objs.gen_obj(rng, "level", rng.choice([1, 2]), 0.0, 0.04)
    opt = gen_opt(rng)
    # repeated IDs: the same ID at several places, the last one stored wins
    if rng.random() < 0.3 and s["props"]:
        p = list(rng.choice(s["props"]))
        q = sp.gen_prop(rng, p[0], "small")
        s["props"].append(q)
    if rng.random() < 0.3 and s["entities"]:
        p = rng.choice(s["entities"])
        s["entities"].append(sp.gen_entity(rng, p[0], "small"))
    # entries that were deleted: nothing but a negative ID is stored for them
    if rng.random() < 0.35:
        for kind in ("props", "entities", "bd_props"):
            for _ in range(rng.choice([0, 0, 1, 2])):
                i = rng.choice([-1, -2, -7, -100, -(2**31), -rng.randint(1, 2**31)])
                e = sp.gen_entity(rng, i, "small") if kind == "entities" else sp.gen_prop(rng, i, "small")
                if s[kind] and rng.random() < 0.7:  # next to one that is there
                    o = rng.choice(s[kind])
                    a, b = (1, 2) if kind == "entities" else (2, 3)
                    e[a], e[b] = o[a], o[b]
                s[kind].insert(rng.randint(0, len(s[kind])), e)
    bad = None
    if rng.random() < 0.25:
        bad = rng.choice([["lver", rng.choice([0, 1, 41, 42])], ["magic", rng.randrange(6), 1 + rng.randrange(255)], ["mtd", rng.randrange(6), 1 + rng.randrange(255)],
                          ["rver", rng.choice([0, 2, 5, 6, 9, 200])], ["rmagic", rng.randrange(6), 1 + rng.randrange(255)], ["vhead", rng.randrange(6), 1 + rng.randrange(255)]])
    return {"spec": s, "opt": opt, "r": [gen_rcfg(rng, forward=0.5) for _ in range(2)], "how": rng.choice(["level", "regions", "meta"]), "bad": bad, "start": rng.choice([0, 0, 3])}


def refuse(world, plan):
    from dustmaker.dfreader import DFReader

    bad = plan["bad"]
    s = plan["spec"]
    rep = {"version": 4, "username": "", "level": "x", "frames": 3, "players": [[0, []]], "entities": []}
    if bad[0] in ("lver", "magic", "mtd"):
        d = bytearray(rc.enc_level(s, plan["opt"]))
        if bad[0] == "lver":
            if bad[1] > 42:
                raise InvalidPlan("version")
            d[6:8] = bad[1].to_bytes(2, "little")
        else:
            d[(0 if bad[0] == "magic" else 16) + bad[1] % 6] ^= (bad[2] & 255) or 1
        fn = lambda r: r.read_level()
        fn2 = lambda r: r.read_level(metadata_only=True)
    elif bad[0] in ("rver", "rmagic"):
        d = bytearray(objs.encode("replay", rep))
        if bad[0] == "rver":
            if bad[1] in (1, 3, 4):
                raise InvalidPlan("version")
            d[6] = (ord("0") + bad[1]) & 255
        else:
            d[bad[1] % 6] ^= (bad[2] & 255) or 1
        fn = fn2 = lambda r: r.read_replay()
    elif bad[0] == "vhead":
        d = bytearray(rc.enc_varfile(b"DF_STA", s["vars"]))
        d[bad[1] % 6] ^= (bad[2] & 255) or 1
        fn = fn2 = lambda r: r.read_var_file(b"DF_STA")
    else:
        raise InvalidPlan(bad[0])
    world.fault("refuse-" + bad[0])
    for f in (fn, fn2):
        for cfg in plan["r"]:
            h = open_stream(world, Store(bytes(d)), cfg, "r")
            out = attempt(f, DFReader(h.f))
            world.log("refuse", out.ok)
            if out.ok:
                raise Violation("accepted", f"a file with damaged {bad} was accepted")


def run(plan, world):
    from dustmaker.dfreader import DFReader

    wrong = sp.wrong_name()
    if wrong:
        raise Violation("named-value", wrong)
    if plan.get("kind"):
        run_other(plan, world)
        return
    s, opt = plan["spec"], plan["opt"]
    if plan.get("bad"):
        refuse(world, plan)
        return
    lt = dict(map(tuple, s["vars"])).get("level_type")
    if lt and lt[1] == 6 and opt.get("segver", 8) <= 6 and s["bd_props"]:
        return
    data = b"\x77" * plan["start"] + rc.enc_level(s, opt)
    want, info = rc.dec_level(data, plan["start"])
    if "junk" in opt or "shuffle" in opt or "segver" in opt:
        world.probe("variant")
    for cfg in plan["r"]:
        h = open_stream(world, Store(data), {**cfg, "pos": plan["start"]}, "r")
        r = DFReader(h.f)

        def go():
            if plan["how"] == "level":
                return r.read_level()
            if plan["how"] == "meta":
                return r.read_level(metadata_only=True)
            lv, offs = r.read_level_ex()
            for _ in offs[:-1]:
                r.read_region(lv)
            return lv

        lv = must(go, f"loading ({plan['how']}) a level of version {opt.get('ver', 44)}/{opt.get('segver', 8)}")
        got = objs.observe("level", lv)
        if plan["how"] == "meta":
            exp = {k: ({} if isinstance(v, dict) else v) for k, v in want.items()}
        else:
            exp = want
        d = sp.diff_level(exp, got)
        if d:
            raise Violation("content", f"{plan['how']} with {opt}: {d}")
        world.log("loaded", sp.freeze(got)[:0], len(data))
