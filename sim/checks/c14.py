"""C14: a command-line run leaves each file either untouched or completely written."""
import json
import random

from .. import cli
from .. import objs
from .. import refcodec as rc
from .. import spec as sp
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation
from ..simfs import ROOT, SimFS, run_cli

LEVEL = "fault_enumeration"
QUICK = 3000
THOROUGH = 200000
CHUNK = 15
RULE = "Each run draws the files of a directory and one command line (every utility; existing, new, linked, identical, missing and unwritable targets; stale temporary files; data that cannot be stored). An undisturbed run gives the new content and the number of system calls and executed lines; then the same command is run again and again, each time with another disturbance at a drawn system call or executed line: kill, power loss (several possible disk states each), I/O error (single or lasting), full disk, interrupt, failing allocation. Oracle: every file is as before or, if it is the target, exactly the new content; files only read are as before; exit status 0 means that the new content is in place, also behind a symbolic link, with the old permissions; a run that ends by itself leaves no other files behind; data that cannot be stored changes nothing and exits non-zero."
REAL = ["dustmaker.cmd.* (run as __main__)", "dustmaker reader/writer", "Python io, argparse, json, shutil, tempfile"]
STUB = ["kernel and file system (system calls)", "disk", "image library (PIL)", "process death"]
ASSUME = ["rename within a directory is atomic; directory changes become durable in their order; data not fsynced before a power loss survives wholly, partly or not at all", "left-over temporary files after a crash are acceptable", "the target is not a device or pipe"]
KINDS = ("thumb-x", "thumb-u", "vars-u", "vars-p", "transform", "saveconvert")


def gen_fault(rng):
    k = rng.random()
    kind = rng.choice(["kill", "kill", "power", "power", "EIO", "EIO", "ENOSPC", "EACCES", "EDQUOT", "EROFS", "interrupt", "memory"])
    if k < 0.12:
        return {"how": "cap", "at": rng.random()}
    if k < 0.3:
        return {"how": "line", "at": rng.random(), "kind": rng.choice(["interrupt", "memory"])}
    return {"how": "op", "at": rng.choice([rng.random(), rng.random(), 0.999, 1.0 if kind == "power" else 0.95]), "kind": kind, "sticky": rng.random() < 0.25, "seed": rng.randrange(10**6)}


def gen(rng, tier):
    kind = rng.choice(["thumb-x", "thumb-u", "thumb-u", "vars-u", "vars-u", "vars-p", "transform", "transform", "saveconvert"])
    s = sp.gen_level(rng, 1, angle_lim=90)
    for k in ("tiles", "bd_tiles"):
        s[k] = [t for t in s[k] if abs(t[1]) < 10**5 and abs(t[2]) < 10**5]
    s["props"] = [q for q in s["props"] if abs(q[2]) < 10**6 and abs(q[3]) < 10**6]
    s["bd_props"] = [q for q in s["bd_props"] if abs(q[2]) < 10**6 and abs(q[3]) < 10**6]
    s["entities"] = [q for q in s["entities"] if abs(q[1]) < 10**6 and abs(q[2]) < 10**6]
    p = {
        "kind": kind, "spec": s, "opt": {"ver": rng.choice([44, 44, 45]), "segver": rng.choice([6, 7, 8, 8])}, "vmap": sp.gen_vmap(rng, rng.choice([0, 1, 3, 5]), 2),
        "img": sp.gen_bytes(rng, 0.0, 30) if rng.random() < 0.8 else {"n": rng.choice([3000, 9000, 20000]), "k": 5},
        "entry": rng.random() < 0.4, "link": rng.random() < 0.2, "mode": rng.choice([0o644, 0o644, 0o600, 0o640, 0o755, 0o664]), "stale": rng.random() < 0.25, "target": rng.choice(["new", "new", "old", "old", "old", "same", "nodir", "dir"]),
        "faults": [gen_fault(rng) for _ in range(rng.choice([4, 8, 12]))],
    }
    if kind == "thumb-u":
        p["how"] = rng.choice(["update", "update", "convert", "scale", "noconv"])
    if kind == "vars-u":
        p["obj"] = rng.choice(["level", "level", "var", "header", "header-new"])
        p["bad"] = rng.choice([None, None, rng.randint(0, len(cli.BAD_DOCS))])
        p["missing"] = rng.random() < 0.05
    if kind == "vars-p":
        p["obj"] = rng.choice(["level", "var"])
    if kind == "transform":
        p["t"] = cli.gen_transform(rng)
        if rng.random() < 0.15:
            p["t"][rng.choice(["tx", "ty"])] = rng.choice([5e8, -5e8, 1e10, 1e15])
    if kind == "saveconvert":
        p["stats"] = cli.gen_stats(rng, rng.random() < 0.2)
    if rng.random() < 0.12:
        p["cut"] = rng.random()
    return p


def setup(plan):
    """-> files, links, command, target name (or None), must_fail"""
    k = plan["kind"]
    if k not in KINDS:
        raise InvalidPlan("kind")
    files, links = {}, []
    must_fail = False
    other = b"untouched" * 30
    files["other.bin"] = other
    lvl = rc.enc_level(plan["spec"], plan["opt"])
    target = None
    tkind = plan["target"]

    def out_name(default, existing):
        nonlocal must_fail
        if tkind in ("old", "same"):
            files[default] = existing
        if tkind == "nodir":
            must_fail = True
            return "missing/" + default
        if tkind == "dir":
            must_fail = True
            return "/nonexistent-simfs/work"
        return default

    if k == "thumb-x":
        files["a.lvl"] = lvl
        name = out_name("img.png", b"old image" * 700)
        c = {"cmd": k, "level": "a.lvl", "image": name, "force": tkind in ("old",)}
        must_fail = must_fail or tkind == "same"
        target = name if not must_fail else None
    elif k == "thumb-u":
        files["a.lvl"] = lvl
        files["img.png"] = sp.xbytes(plan["img"])
        how = plan.get("how", "update")
        c = {"cmd": k, "level": "a.lvl", "image": "img.png", "how": "convert" if how == "noconv" else how}
        must_fail = how == "noconv" or (how in ("convert", "scale") and cli.convert(files["img.png"], False) is None)
        target = "a.lvl"
    elif k == "vars-u":
        obj = plan.get("obj")
        canon = sp.canon_vmap(plan["vmap"])
        try:
            d = json.dumps(cli.doc(canon)).encode()
        except cli.Conflict:
            d = json.dumps(cli.doc(sp.canon_vmap([["a", ["i", 1]]]))).encode()
        if plan.get("bad") is not None:
            d = cli.bad_doc(plan["bad"])
            must_fail = True
        files["new.json"] = d
        if plan.get("missing"):
            del files["new.json"]
            must_fail = True
        c = {"cmd": k, "object": "cfg", "json": "new.json"}
        if obj == "level":
            files["cfg"] = lvl
        elif obj in ("var", "header"):
            files["cfg"] = rc.enc_varfile(b"DF_CFG", [["old", ["i", 5]]])
        if obj in ("header", "header-new"):
            c["header"] = "DF_STA"
        elif obj not in ("level", "var"):
            raise InvalidPlan("obj")
        target = "cfg"
    elif k == "vars-p":
        files["cfg"] = lvl if plan.get("obj") == "level" else rc.enc_varfile(b"DF_CFG", plan["vmap"])
        c = {"cmd": k, "object": "cfg"}
    elif k == "transform":
        files["a.lvl"] = lvl
        name = out_name("b.lvl", b"previous level" * 300)
        if tkind == "same":
            name = "a.lvl"
            files.pop("b.lvl", None)
        c = {"cmd": k, "in": "a.lvl", "out": name, "t": plan["t"]}
        target = name if not must_fail else None
    else:
        files["stats0"] = rc.enc_varfile(b"DF_STA", plan["stats"])
        name = out_name("stats1", b"previous save" * 300)
        if tkind == "same":
            name = "stats0"
            files.pop("stats1", None)
        c = {"cmd": k, "in": "stats0", "out": name}
        target = name if not must_fail else None
    if plan.get("cut") is not None and k not in ("vars-u",):
        # the input is damaged: cut short
        n = {"thumb-x": "a.lvl", "thumb-u": "a.lvl", "vars-p": "cfg", "transform": "a.lvl", "saveconvert": "stats0"}[k]
        files[n] = files[n][: int(plan["cut"] * min(len(files[n]), 20))]
        must_fail = True
    if plan.get("link") and target in files:
        links.append(["via", target])
        for key in ("level", "image", "object", "in", "out"):
            if c.get(key) == target:
                c[key] = "via"
    if plan.get("stale"):
        for n in list(files):
            files[n + ".4242.tmp"] = b"stale" * 1000
            files[n + ".tmp"] = b"stale" * 1000
    return files, links, c, target, must_fail


def run(plan, world):
    files, links, c, target, must_fail = setup(plan)
    entry, argv = cli.argv_of(c)
    if not plan.get("entry"):
        entry = "main"
    mods = {"PIL": None, "PIL.Image": None} if plan.get("how") == "noconv" else cli.fake_pil()
    tracked = {"work/" + n for n in files if not n.endswith(".tmp")}
    if links:
        tracked.add("work/via")
    tname = None if target is None else "work/" + target
    if tname:
        tracked.add(tname)

    def fresh():
        fs = SimFS(world, files, [tuple(x) for x in links])
        if tname and target in files:
            mode_of(fs).mode = plan.get("mode", 0o644) & 0o777
        return fs

    def mode_of(fs):
        return fs.lookup(ROOT + "/" + tname, True)

    def written(fs, now, what):
        """The new content is in place; nothing else came with it."""
        goal = "work/via" if links else tname
        for n in {tname, goal}:
            if now.get(n) != want:
                raise Violation("false-success", f"exit status 0 after {what}, but the new content is not in place in {n}")
        if links and fs.lookup(ROOT + "/work/via", False).kind != "link":
            raise Violation("link-lost", f"{what}: the symbolic link to the target became a file of its own")
        if target in files and mode_of(fs).mode != plan.get("mode", 0o644) & 0o777:
            raise Violation("permissions", f"{what}: the permissions of {target} were {plan.get('mode', 0o644):o}, are now {mode_of(fs).mode:o}")

    def leftovers(now, what):
        more = sorted(n for n in set(now) - set(old) if n != tname)
        if more:
            raise Violation("left-over", f"{what}: the run ended by itself but left {more} behind")

    # ---- undisturbed
    fs = fresh()
    old = fs.view()
    tr = LineTracer()
    res = run_cli(fs, argv, entry, tracer=tr, modules=mods)
    new = fs.view()
    ops, lines = fs.ops, tr.n
    world.log("plain", argv[0], res.code)
    if res.killed:
        raise InvalidPlan("killed without fault")
    if plan["kind"] == "transform" and res.code != 0 and not must_fail and any(abs(plan["t"].get(q) or 0) > 1e7 for q in ("tx", "ty")):
        must_fail = True  # moved further than can be stored
        world.probe("unstorable-position")
    if plan["kind"] == "saveconvert" and res.code != 0 and not must_fail and not whole_scores(plan["stats"]):
        must_fail = True
        world.probe("unusable-save")
    if plan["kind"] == "vars-p" and res.code != 0 and not must_fail:
        try:
            cli.doc(sp.canon_vmap(plan["spec"]["vars"] if plan.get("obj") == "level" else plan["vmap"]))
        except cli.Conflict:
            must_fail = True  # no common schema
            world.probe("no-common-schema")
    if must_fail:
        if res.code == 0:
            raise Violation("false-success", f"`{' '.join(argv)[:120]}` cannot do its job but exits with status 0")
        world.probe("refused-command")
        allowed = {n: {old.get(n)} for n in tracked | set(new)}
    else:
        if res.code != 0:
            raise Violation("unexpected-error", f"`{' '.join(argv)[:120]}` fails without any disturbance: exit {res.code} {res.exc!r} {res.errtext[-200:]!r}")
        allowed = {n: {old.get(n)} for n in tracked}
        if tname:
            goal = "work/via" if links else tname
            if new.get(goal) is None:
                raise Violation("not-written", f"`{' '.join(argv)[:120]}` exits with status 0 without writing {goal}")
            check_new(plan, c, files, target, new[goal])
            want = new[goal]
            for n in {tname, goal}:
                allowed[n] = {old.get(n), want}
            written(fs, new, "an undisturbed run")
    compare(old, new, allowed, tracked, must_fail, "an undisturbed run")
    leftovers(new, "an undisturbed run")
    if not must_fail and tname:
        world.probe("wrote")

    # ---- disturbed
    for f in plan["faults"]:
        fs = fresh()
        tr = None
        at = int(f["at"] * (lines if f["how"] == "line" else ops))
        if f["how"] == "cap":
            fs.cap = int(f["at"] * (fs_total(new) + 10))
        elif f["how"] == "line":
            if f["kind"] not in INTERRUPTS:
                raise InvalidPlan("kind")
            tr = LineTracer(raise_at=max(1, at), exc=INTERRUPTS[f["kind"]]())
        elif f["how"] == "op":
            fs.faults = [{"at": at, "kind": f["kind"], "sticky": f.get("sticky")}]
            if f["kind"] not in ("kill", "power", "EIO", "ENOSPC", "EACCES", "EDQUOT", "EROFS", "interrupt", "memory"):
                raise InvalidPlan("kind")
        else:
            raise InvalidPlan("how")
        res = run_cli(fs, argv, entry, tracer=tr, modules=mods)
        if tr is not None and tr.fired:
            world.fault(f"{f['kind']}@line")
        now = fs.view()
        what = f"{f.get('kind') or 'disk full'} ({f['how']} {at if f['how'] != 'cap' else fs.cap}{' ' + fs.trace_ops[at] if f['how'] == 'op' and at < len(fs.trace_ops) else ''})"
        world.log("disturbed", what, res.code, res.killed, fs.dead)
        views = [now]
        if f.get("kind") == "power" and f["how"] == "op":
            r = random.Random(f["seed"])
            views = [fs.power_view(r) for _ in range(6)]
            if not fs.fired:
                world.fault("power-after-exit")
        for v in views:
            compare(old, v, allowed, tracked, must_fail, what)
        if res.code == 0 and not res.killed:
            if must_fail:
                raise Violation("false-success", f"`{' '.join(argv)[:120]}` cannot do its job but exits with status 0 ({what})")
            if tname:
                written(fs, now, what)
        if not res.killed and not fs.dead and (f["how"] == "cap" or f["how"] == "op" and (f["kind"].startswith("E") or f["kind"] == "interrupt") and not f.get("sticky") and not (at < len(fs.trace_ops) and fs.trace_ops[at].startswith(("unlink", "stat", "lstat", "access")))):
            leftovers(now, what)
            world.probe("nothing-left-over")


def whole_scores(stats):
    """Does every score have all that the conversion needs?"""
    for k, v in stats:
        if k == "score":
            for sc in v[2]:
                if not {"file_name", "combo", "time", "thorough", "best_time", "overall"} <= {kv[0] for kv in sc[1]}:
                    return False
    return True


def fs_total(view):
    return sum(len(v) for v in view.values())


def compare(old, now, allowed, tracked, must_fail, what):
    for n in sorted(tracked | set(old)):
        if n.endswith(".tmp"):
            continue
        ok = allowed.get(n, {old.get(n)})
        got = now.get(n)
        if got not in ok:
            was = "absent" if old.get(n) is None else f"{len(old[n])} bytes"
            is_ = "gone" if got is None else f"{len(got)} bytes {bytes(got[:24])!r}"
            raise Violation("damaged", f"{what}: {n} was {was}, is now {is_}: neither the old nor the new content")


def check_new(plan, c, files, target, data):
    """The new content is a complete one."""
    k = plan["kind"]
    try:
        if k == "thumb-x":
            want, _ = rc.dec_level(files["a.lvl"], 0)
            if data != want["sshot"]:
                raise Violation("content", "extracted image is not the thumbnail")
        elif k == "thumb-u":
            got, info = rc.dec_level(data, 0)
            img = files["img.png"]
            how = plan.get("how", "update")
            if how in ("convert", "scale"):
                img = cli.convert(img, how == "scale")
            if got["sshot"] != img or info["end"] != len(data):
                raise Violation("content", "updated level does not hold the image, or has other data behind it")
        elif k == "vars-u":
            if plan["obj"] == "level":
                _, info = rc.dec_level(data, 0)
                end = info["end"]
                if end != len(data):
                    raise Violation("content", "updated level has other data behind it")
            else:
                rc.dec_varfile(data, b"DF_STA" if plan["obj"] != "var" else b"DF_CFG")
        elif k == "transform":
            _, info = rc.dec_level(data, 0)
            if info["end"] != len(data):
                raise Violation("content", "transformed level has other data behind it")
        elif k == "saveconvert":
            rc.dec_varfile(data, b"DF_STA")
    except rc.FormatError as e:
        raise Violation("content", f"the new content is not complete: {e}") from None
