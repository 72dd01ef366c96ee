"""Shared by C06, C07, C08: save through faulty storage, reload through faulty
storage; everything that reports success must be right."""
from .. import objs
from .. import refcodec as rc
from ..kernel import InvalidPlan, Violation, attempt, must
from ..spec import gen_tile, xbytes
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored

WFAULT_OPS = ("write", "write", "write", "seek", "flush", "close")


def gen_wfault(rng, cfg):
    if cfg["layer"] == "bytesio":
        return
    k = rng.random()
    if k < 0.25:
        cfg["cap"] = rng.choice([0, rng.randint(0, 60), rng.randint(0, 600)])
        return
    op = rng.choice(WFAULT_OPS)
    n = rng.choice([0, 1, 2, rng.randint(0, 10), rng.randint(0, 100)]) if op in ("write", "seek") else 0
    f = {"op": op, "n": n, "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT"]), "sticky": rng.random() < 0.3}
    if op == "write" and rng.random() < 0.5:
        f["partial"] = rng.randint(0, 30)
    cfg["faults"] = [f]


def gen_rfault(rng, cfg):
    if cfg["layer"] == "bytesio":
        return
    cfg["faults"] = [{"op": rng.choice(["read", "read", "seek"]), "n": rng.choice([0, 1, rng.randint(0, 10), rng.randint(0, 100)]), "errno": "EIO", "sticky": rng.random() < 0.3}]


def gen_plan(rng, s, kind):
    writes = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        cfg = gen_wcfg(rng)
        gen_wfault(rng, cfg)
        writes.append({"cfg": cfg, "noclose": rng.random() < 0.25})
    writes.append({"cfg": gen_wcfg(rng), "noclose": rng.random() < 0.25})
    reads = []
    for _ in range(rng.choice([0, 1, 1])):
        cfg = gen_rcfg(rng)
        gen_rfault(rng, cfg)
        reads.append({"cfg": cfg, "known": rng.random() < 0.5})
    reads.append({"cfg": gen_rcfg(rng), "known": rng.random() < 0.5})
    wild = rng.random() < 0.08
    if wild:
        make_wild(rng, kind, s)
    elif rng.random() < (0.02 if kind == "replay" else 0.006):
        make_edge(rng, kind, s)
    old = {"n": rng.choice([0, 0, 1, 40, 700, 5000]), "k": rng.randrange(256)}
    return {"kind": kind, "spec": s, "old": old, "writes": writes, "reads": reads, "again": rng.random() < 0.3, "wild": wild}


def make_edge(rng, kind, s):
    """Put one value into the spec that the format can just hold."""
    if kind == "replay":
        k = rng.choice(["level", "user", "players", "frames"])
        if k == "level":
            s["level"] = {"n": 255, "k": 3}
        elif k == "user":
            s["username"] = {"n": 65535, "k": 3}
        elif k == "frames":
            s["frames"] = 2**32 - 1
        elif s["version"] > 1:
            s["players"] = [[i % 8, []] for i in range(rng.choice([9, 255, 256, 300]))]
        return
    k = rng.choice(["arr", "key", "fkey"] + ["strarr"] * (kind == "var"))
    if k == "arr":
        v = ["edge", ["big", "b", 65535]]
    elif k == "strarr":
        v = ["edge", ["big", "s", 65535]]
    elif k == "key":
        v = ["k" * 63, ["i", 1]]
    else:
        v = ["edge", ["f", rng.choice([1.0, -1.0]) * (2.0**31 - 1)]]
    s["vars"].append(v)


def make_wild(rng, kind, s):
    """Put one value into the spec that the format cannot (or just barely can) hold."""
    far = rng.choice([-1, 1]) * rng.choice([2.0**31 - 1, 2.0**31, 2.0**31 + 0.5, 3e9, 1e10, 5e11, 2.0**39, 1e13, 1e30])
    if kind == "level":
        k = rng.choice(["var", "tile", "entx", "propx", "entf", "propf", "propid", "scale", "tilef", "id", "key"])
        pos = rng.choice([-1, 1]) * rng.choice([256 * 32768 - 1, 256 * 32768, 256 * 32768 + 1, 256 * 40000, 256 * 65536, 256 * 70000 + 3])
        if k == "tile":
            t = gen_tile(rng, rng.choice([19, 3]), pos, 0)
            if rng.random() < 0.25:
                t[0], t[1] = rng.choice([-1, -237, 256, 275, 300]), 5
            if rng.random() < 0.5:
                t[1], t[2] = t[2], t[1]
            s["tiles"].append(t)
        elif k == "entx":
            s["entities"].append([99991, far, 3.0, "enemy_tutorial_square", [], 0, 18, 1, 1, 1])
        elif k == "propx":
            s["props"].append([99992, 5, rng.choice([2.0**27 - 1, 2.0**27, -(2.0**27), 2.0**28, 2.0**35 + 5, 1e12]), 0.0, 1, 0, 1, 1, 32, 1, 2, 3, 4])
        elif k == "entf":
            e = [99993, 5.0, 3.0, "enemy_tutorial_square", [], 0, 18, 1, 1, 1]
            e[rng.choice([5, 5, 6])] = rng.choice([255, 256, 65535, 65536, 70000, 2**24, 2**33])
            s["entities"].append(e)
        elif k == "propf":
            q = [99994, 5, 1.0, 2.0, 1, 0, 1, 1, 32, 1, 2, 3, 4]
            q[rng.choice([1, 4, 5, 9, 10, 11, 12])] = rng.choice([255, 256, 4095, 4096, 65535, 65536, 2**24])
            s["props"].append(q)
        elif k == "id":
            s["entities"].append([rng.choice([2**31 - 1, 2**31, 2**31 + 7, 2**32 - 1, 2**32, 2**33, 2**40, -1, -5]), 5.0, 3.0, "enemy_tutorial_square", [], 0, 18, 1, 1, 1])
        elif k == "propid":
            s[rng.choice(["props", "bd_props"])].append([rng.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32, -1, -100]), 5, 1.0, 2.0, 1, 0, 1, 1, 32, 1, 2, 3, 4])
        elif k == "scale":
            s["props"].append([99997, 5, 1.0, 2.0, 1, 0, 1, 1, rng.choice([-1, -3, -40, 0, 48, 55, 56, 57, 60, 111, 112, 113, 200]), 1, 2, 3, 4])
        elif k == "tilef":
            t = gen_tile(rng, 19, 3, 3)
            j = rng.choice([0, 3, 4, 5, 6, 7, "angle", "fangle"])
            if j == "angle":
                t[8][rng.randrange(4)][4] = rng.choice([127, 128, -128, -129, 200, 300])
            elif j == "fangle":
                t[8][rng.randrange(4)][6:] = [2, 0, 0, 0, rng.choice([127, 128, -128, -129, 300]), 0]
            else:
                t[j] = rng.choice([7, 8, 15, 16, 31, 32, 255, 256, 300] + [-1] * (j != 4))  # negative flags: the same bits
            s["tiles"] = [q for q in s["tiles"] if q[:3] != t[:3]] + [t]
        elif k == "key":
            s["entities"].append([99995, 5.0, 3.0, rng.choice(["a" * 63, "a" * 64, "a-b", "a\u00e9"]), [], 0, 18, 1, 1, 1])
        else:
            wild_vars(rng, s["vars"], far)
    elif kind == "var":
        wild_vars(rng, s["vars"], far)
    else:
        k = rng.choice(["frames", "level", "user", "uid", "pos", "version", "players"])
        if k == "frames":
            s["frames"] = rng.choice([2**32 - 1, 2**32, 2**40, 2**41])
        elif k == "level":
            s["level"] = {"n": rng.choice([255, 256, 300, 70000]), "k": 3}
        elif k == "user":
            s["username"] = {"n": rng.choice([65535, 65536, 70000]), "k": 3}
        elif k == "version":
            s["version"] = rng.choice([0, 2, 2, 5, 6, 9, 100, 255, 256, -1])
            s["wild"] = True
        elif k == "players":
            if rng.random() < 0.7:
                s["version"] = 1
                s["players"] = s["players"] * 2 if rng.random() < 0.7 else []
            else:
                s["players"] = [[0, []]] * rng.choice([255, 256, 300])
            s["wild"] = True
        elif k == "uid":
            s["entities"].append([rng.choice([2**32, 2**40, 2**33]), []])
        else:
            fr = [5, 1, 2, 3, 4]
            fr[rng.randrange(5)] = rng.choice([2**32, 2**33, -(2**31) - 1, -(2**32), 2**40])
            s["entities"].append([99996, [fr]])


def wild_vars(rng, m, far):
    k = rng.choice(["f", "f", "v", "nest", "arr", "strarr", "key"])
    if k == "f":
        v = ["f", far]
    elif k == "v":
        v = ["v", [1.0, far]]
    elif k == "nest":
        v = ["t", [["x", ["a", "f", [["f", 0.5], ["f", far]]]]]]
    elif k == "arr":
        v = ["big", "b", rng.choice([65535, 65536, 65537, 70000])]
    elif k == "strarr":
        v = ["big", "s", rng.choice([65535, 65536, 70000])]
    else:
        m.append([rng.choice(["k" * 63, "k" * 64, "k-", "k k", "\u00e9"]), ["i", 1]])
        return
    m.append(["wild", v])


def expand(m):
    return [[k, ["a", v[1], [[v[1], True if v[1] == "b" else "x"]] * v[2]] if v[0] == "big" else v] for k, v in m]


def one_save(world, store, kind, obj, s, t):
    from dustmaker.dfwriter import DFWriter

    h = open_stream(world, store, t["cfg"], "w")

    def go():
        nc = bool(t.get("noclose"))
        with DFWriter(h.f, noclose=nc) as w:
            objs.save(w, kind, obj, s)
            end = w.bit_tell()
        if nc:
            h.f.close()
        return end

    out = attempt(go)
    fired = h.fired()
    if h.raw is not None:
        h.raw.fl.armed = False
        attempt(h.f.close)
    return h, out, fired


def run(plan, world, kinds, compare=None):
    from dustmaker.dfreader import DFReader

    kind, s = plan["kind"], plan["spec"]
    if kind not in kinds:
        raise InvalidPlan(kind)
    wild = bool(plan.get("wild"))
    if "vars" in s:
        s = {**s, "vars": expand(s["vars"])}
    want = objs.canon(kind, s)
    if wild:
        # the object itself may refuse the value
        out = attempt(objs.build, kind, s)
        if not out.ok:
            world.probe("refused-by-object")
            world.log("refused")
            return
        obj = out.value
    else:
        obj = objs.build(kind, s)
    store = Store(xbytes(plan["old"]))
    diff = compare or objs.diff
    good = None
    for i, t in enumerate(plan["writes"]):
        h, out, fired = one_save(world, store, kind, obj, s, t)
        world.log("save", i, out.ok, fired)
        if not out.ok:
            if not fired and wild:
                world.probe("refused-by-save")
                continue
            if not fired:
                raise Violation("unexpected-error", f"saving a {kind} to healthy storage {out.describe()}")
            world.probe("save-failed")
            continue
        if t["cfg"]["layer"] == "bytesio":
            store = Store(stored(h))
        end = out.value // 8
        good = store.bytes()
        if fired:
            world.probe("saved-despite-fault")
        if not wild:
            # an independent decoder must find the same in what was stored
            try:
                other, stop = objs.decode(kind, good, s)
            except rc.FormatError as e:
                raise Violation("format", f"what a successful save of a {kind} stored is not well-formed: {e}") from None
            d = diff(kind, want, other)
            if d:
                raise Violation("content", f"an independent decoder finds in the saved {kind}: {d}")
            if stop != end:
                raise Violation("content", f"writer stands at byte {end} after a {kind} that ends at byte {stop}")
        for j, rt in enumerate(plan["reads"]):
            rh = open_stream(world, Store(good), rt["cfg"], "r")

            def go():
                with DFReader(rh.f) as r:
                    return objs.observe(kind, objs.load(r, kind, s, end if rt.get("known") else None))

            got = attempt(go)
            world.log("load", j, got.ok, rh.fired())
            if not got.ok:
                if not rh.fired():
                    raise Violation("lost", f"a saved {kind} cannot be loaded: {got.describe()}")
                world.probe("load-failed")
                continue
            d = diff(kind, want, got.value)
            if d:
                raise Violation("content", f"saved {kind} reloads differently: {d}")
    if wild:
        world.probe("wild-value-stored" if good is not None else "wild-value-refused")
        return
    if good is None:
        raise InvalidPlan("no save succeeded")
    if plan.get("again"):
        from io import BytesIO

        obj2 = must(lambda: objs.load(DFReader(BytesIO(good)), kind, s, None), "reload")
        data2 = must(objs.plain_save, "saving the reloaded object", kind, obj2, s)
        obj3 = must(lambda: objs.load(DFReader(BytesIO(data2)), kind, s, None), "second reload")
        d = diff(kind, want, objs.observe(kind, obj3))
        if d:
            raise Violation("content", f"{kind} saved, reloaded, saved again reloads differently: {d}")
        world.probe("second-generation")
