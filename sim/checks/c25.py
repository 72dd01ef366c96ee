"""C25: variables stay within their type and arrays act as lists of values, over any history."""
import copy

from .. import spec as sp
from ..kernel import INTERRUPTS, InvalidPlan, LineTracer, Violation, attempt, must, sha
from ..streams import Store, gen_rcfg, gen_wcfg, open_stream, stored
from .roundtrip import gen_wfault

LEVEL = "exploration"
QUICK = 16000
THOROUGH = 400000
CHUNK = 60
RULE = "Each run keeps a few variables (scalars, structs, arrays, nested ones) in a level and drives them through a history of list operations on arrays at any depth (by index, negative index and slice; append, insert, extend, pop, remove, reverse, clear, +=), replaced values and struct members, copies, constructions from containers that are changed afterwards, all of these also with values that do not belong to the type, some of them interrupted or out of memory at a drawn line, and in between saves, failing saves, crashes back to the last completed save and reloads. Oracle, after every step and for every variable: a model made of plain Python lists and dictionaries; wrong values are refused and change nothing, an interrupted single operation happened fully or not at all, equality is equality of type and value, and a reload brings back what was saved."
REAL = ["dustmaker.variable", "dustmaker.dfreader/dfwriter/bitio", "dustmaker.level (as the holder)"]
STUB = ["raw stream and storage medium", "process death (in-memory state dropped)", "interrupt delivery"]
ASSUME = ["values are ones the file format can represent exactly", "a bool is not offered where an int is expected (Python itself takes it for one)"]

HOW = ("append", "append", "insert", "insert", "setitem", "setitem", "delitem", "pop", "extend", "iadd", "remove", "reverse", "clear", "getslice", "setslice", "setslice", "delslice", "extself", "find")
OPS = ("arr",) * 8 + ("bad", "bad", "badnew", "badval", "badsave", "member", "member", "rebind", "copy", "wrap", "eq", "drop", "new", "save", "fail", "intsave", "reload", "crash")
SINGLE = ("append", "insert", "setitem", "delitem", "pop", "setslice", "delslice")


def gen_grid(rng, t, depth):
    """A variable spec whose floats are exactly representable."""
    if t == "f":
        return ["f", rng.choice([0.0, 1.0, -1.0, rng.randint(-(2**20), 2**20) / 1024.0])]
    if t == "v":
        return ["v", [rng.randint(-(2**20), 2**20) / 1024.0, float(rng.randint(-3, 3))]]
    if t == "b":
        return ["b", rng.random() < 0.5]
    if t == "i":
        return ["i", rng.choice([0, 1, 2, 3, -1, sp.gen_int(rng)])]
    if t == "u":
        return ["u", rng.choice([0, 1, 2, 3, sp.gen_uint(rng)])]
    if t == "s":
        return ["s", rng.choice(["", "x", "ab", "\x00\xff", {"n": rng.choice([300, 65535, 65536, 131070]), "k": rng.randrange(9)} if rng.random() < 0.03 else "q"])]
    inner = "biufsv" + ("ta" if depth > 0 else "")
    if t == "t":
        return ["t", [[k, gen_grid(rng, rng.choice(inner), depth - 1)] for k in rng.sample("abcdef", rng.choice([0, 1, 2]))]]
    et = rng.choice(inner)
    return ["a", et, [gen_grid(rng, et, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))]]


def gen(rng, tier):
    types = [rng.choice("aaaaabiufsvt") for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([2, 6, 12, 25])):
        k = rng.choice(OPS)
        op = {"op": k, "on": rng.randrange(8), "path": [rng.randrange(6) for _ in range(3)], "k": rng.randrange(-9, 10)}
        if k == "arr":
            op["how"] = rng.choice(HOW)
            op["sl"] = [rng.choice([None, rng.randint(-6, 6)]), rng.choice([None, rng.randint(-6, 6)]), rng.choice([None, None, 1, 2, -1, -2, 3])]
            op["n"] = rng.choice([0, 1, 2, 3, 5])
            op["seed"] = rng.randrange(1 << 30)
            if rng.random() < 0.12:
                op["int"], op["when"] = rng.choice(["interrupt", "memory"]), rng.random()
            if rng.random() < 0.1 and op["how"] in ("append", "insert", "setitem", "extend", "iadd", "setslice"):
                op["bad"] = rng.randrange(20)
        elif k in ("bad", "badnew", "badval", "badsave"):
            op["bad"] = rng.randrange(20)
            op["t"] = rng.choice("biufsvta")
        elif k in ("member", "rebind", "new", "wrap"):
            op["seed"] = rng.randrange(1 << 30)
            op["t"] = rng.choice("biufsvtaa")
        elif k == "fail":
            op["w"] = gen_wcfg(rng, layers=("raw", "buf", "duck"))
            gen_wfault(rng, op["w"])
        elif k == "intsave":
            op["int"], op["when"] = rng.choice(["interrupt", "memory"]), rng.random()
        elif k in ("save", "reload"):
            op["w"] = gen_wcfg(rng)
        if k in ("reload", "crash"):
            op["r"] = gen_rcfg(rng, forward=0.0)
        ops.append(op)
    return {"vars": [gen_grid(rng, t, 2) for t in types], "ops": ops}


# The model: a variable is [type letter, payload]; arrays ["a", element letter, [payloads]],
# structs ["t", {key: variable}]; a payload is a plain Python value, for a nested array
# [element letter, [payloads]].
def model_of(v):
    t = v[0]
    if t == "a":
        return ["a", v[1], [payload(model_of(x)) for x in v[2]]]
    if t == "t":
        return ["t", {k: model_of(x) for k, x in v[1]}]
    if t == "s":
        return ["s", sp.xbytes(v[1])]
    if t == "v":
        return ["v", (v[1][0], v[1][1])]
    return [t, v[1]]


def payload(m):
    return [m[1], m[2]] if m[0] == "a" else m[1]


def whole(t, p):
    return ["a", p[0], p[1]] if t == "a" else [t, p]


def canon(m):
    t = m[0]
    if t == "a":
        return ("a", m[1], tuple(canon(whole(m[1], p)) for p in m[2]))
    if t == "t":
        return ("t", tuple((k, canon(x)) for k, x in m[1].items()))
    return (t, m[1])


def from_canon(c):
    t = c[0]
    if t == "a":
        return ["a", c[1], [payload(from_canon(x)) for x in c[2]]]
    if t == "t":
        return ["t", {k: from_canon(x) for k, x in c[1]}]
    return [t, c[1]]


def arrays(m, path=()):
    """All arrays in a model variable: (path, model); a step is a struct key or ("#", index)."""
    out = []
    if m[0] == "a":
        out.append((path, m))
        if m[1] in "at":
            for i, p in enumerate(m[2]):
                out += arrays(whole(m[1], p), path + (("#", i),))
    elif m[0] == "t":
        for k, x in m[1].items():
            out += arrays(x, path + (k,))
    return out


def leaves(m, path=()):
    """Every variable in a model variable: (path, type)."""
    out = [(path, m[0])]
    if m[0] == "t":
        for k, x in m[1].items():
            out += leaves(x, path + (k,))
    elif m[0] == "a":
        for i, p in enumerate(m[2]):
            out += leaves(whole(m[1], p), path + (("#", i),))
    return out


def structs(m, path=()):
    out = []
    if m[0] == "t":
        out.append((path, m))
        for k, x in m[1].items():
            out += structs(x, path + (k,))
    elif m[0] == "a" and m[1] in "at":
        for i, p in enumerate(m[2]):
            out += structs(whole(m[1], p), path + (("#", i),))
    return out


def run(plan, world):
    from dustmaker import variable as V
    from dustmaker.dfreader import DFReader
    from dustmaker.dfwriter import DFWriter
    from dustmaker.level import Level

    T = sp._dm()
    inv = {c: t for t, c in T.items()}

    def build(m):
        t = m[0]
        if t == "a":
            return T["a"](T[m[1]], [build(whole(m[1], p)) for p in m[2]])
        if t == "t":
            return T["t"]({k: build(x) for k, x in m[1].items()})
        return T[t](m[1])

    def unboxed(t, p):
        """What the list interface takes for an element."""
        if t == "a":
            return (T[p[0]], [build(whole(p[0], q)) for q in p[1]])
        if t == "t":
            return {k: build(x) for k, x in p.items()}
        return p

    def seen(t, x):
        """Payload-canonical form of what the list interface gave for an element."""
        if t == "a":
            if not isinstance(x, tuple) or len(x) != 2 or not isinstance(x[1], list):
                return ("?", repr(x)[:60])
            return ("a", inv.get(x[0], "?"), tuple(sp.observe_var(e, inv) for e in x[1]))
        if t == "t":
            return ("t", sp.observe_vmap(x, inv)) if isinstance(x, dict) else ("?", repr(x)[:60])
        if t == "v":
            return ("v", x)
        return (t, x)

    def wrong(t, k):
        """A value that does not belong to type t."""
        pool = {
            "b": [1, 0, None, b"", 1.0, "True"],
            "i": [2**31, -(2**31) - 1, 1.0, b"1", None, "1", 2**40],
            "u": [-1, 2**32, 1.0, None, b"", -(2**31)],
            "f": [1, "1.0", None, b"", (1.0,), 2**40],
            "s": ["text", None, 5, bytearray(b"x"), [b"x"]],
            "v": [(1.0,), (1.0, 2), (1, 2.0), [1.0, 2.0], (1.0, 2.0, 3.0), None, 1.0, ("a", "b")],
            "t": [{"a": 5}, {5: V.VariableInt(1)}, {"a": V.VariableInt(1), "b": None}, 5, {b"a": V.VariableInt(1)}],
            "a": [(V.VariableInt, [V.VariableString(b"")]), (V.VariableInt, [5]), (int, []), (V.Variable, []), (V.Variable, [V.VariableInt(1), V.VariableString(b"x")]), (V.VariableInt, [V.VariableInt(1), V.VariableUInt(1)]), (V.VariableInt, [V.VariableInt(1), None])],
        }[t]
        if t != "a":
            # a variable of another type is no value of this one either
            other = [x for x in (V.VariableInt(1), V.VariableUInt(1), V.VariableBool(True), V.VariableFloat(1.0), V.VariableString(b"x"), V.VariableVec2((1.0, 2.0))) if not isinstance(x, T[t])]
            pool = pool + other[k % 3 :: 3]
        return pool[k % len(pool)]

    def construct(t, x):
        return T["a"](*x) if t == "a" else T[t](x)

    state = {"lv": Level()}
    model = {}
    base = None
    for i, v in enumerate(plan["vars"]):
        m = model_of(v)
        model[f"k{i}"] = m
        state["lv"].variables[f"k{i}"] = must(lambda: build(m), "building")

    def var(name):
        return state["lv"].variables[name]

    def at(name, path):
        x = var(name)
        for p in path:
            x = x.value[1][p[1]] if isinstance(p, tuple) else x.value[p]
        return x

    def show(c):
        return repr(c)[:120]

    def check(where):
        got = {k: sp.observe_var(x, inv) for k, x in state["lv"].variables.items() if k in model}
        for name, m in model.items():
            if name not in got:
                raise Violation("stored", f"after {where}: variable {name} is gone")
            want = canon(m)
            if got[name] != want:
                raise Violation("content", f"after {where}: {name} is {show(got[name])}, should be {show(want)}")
            x = var(name)
            must(x.assert_types, f"after {where}: assert_types of {name}")
            for path, am in arrays(m):
                look(at(name, path), am, f"after {where}: {name}{list(path)}")

    def look(arr, am, where):
        """The read side of the list interface."""
        et, ps = am[1], am[2]
        want = [canon(whole(et, p)) for p in ps]
        n = must(lambda: len(arr), f"{where}: len")
        now = [seen(et, e) for e in must(lambda: list(arr), f"{where}: iterating")]
        if n != len(want) or now != want:
            raise Violation("list", f"{where}: iterates as {show(now)} (length {n}), should be {show(want)}")
        if arr.element_type is not T[et]:
            raise Violation("list", f"{where}: element type {arr.element_type!r}")
        for i in {0, n // 2, n - 1, -1, -n}:
            if -n <= i < n:
                e = seen(et, must(lambda: arr[i], f"{where}[{i}]"))
                if e != want[i]:
                    raise Violation("list", f"{where}[{i}] is {show(e)}, should be {show(want[i])}")
        for i in (n, -n - 1):
            out = attempt(lambda: arr[i])
            if out.ok or not isinstance(out.exc, IndexError):
                raise Violation("list", f"{where}[{i}]: {out.describe() if not out.ok else show(out.value)} with {n} elements")
        if [seen(et, e) for e in must(lambda: list(reversed(arr)), f"{where}: reversed")] != want[::-1]:
            raise Violation("list", f"{where}: reversed gives another order")
        if et in "biufsv" and n:
            v = ps[n // 2]
            if must(lambda: arr.count(v), where) != ps.count(v) or must(lambda: arr.index(v), where) != ps.index(v) or must(lambda: v in arr, where) is not True:
                raise Violation("list", f"{where}: count, index or membership of {show(v)} wrong in {show(ps)}")

    def save(cfg, tracer=None):
        h = open_stream(world, Store(), cfg, "w")

        def go():
            with DFWriter(h.f) as w:
                w.write_level(state["lv"])

        if tracer is not None:
            with tracer:
                out = attempt(go)
        else:
            out = attempt(go)
        data = stored(h)
        if h.raw is not None:
            h.raw.fl.armed = False
            attempt(h.f.close)
        return out, data

    def load(data, cfg):
        h = open_stream(world, Store(data), cfg, "r")
        state["lv"] = must(lambda: DFReader(h.f).read_level(), "loading")

    import random

    disk = None
    check("building")
    for n, op in enumerate(plan["ops"]):
        k = op["op"]
        where = f"step {n} ({k})"
        if not model:
            model["k0"] = ["i", 1]
            state["lv"].variables["k0"] = build(model["k0"])
        names = list(model)
        name = names[op["on"] % len(names)]
        m = model[name]
        if k in ("arr", "bad"):
            found = arrays(m)
            if not found:
                continue
            path, am = found[op["path"][0] % len(found)]
            arr = at(name, path)
            if k == "bad":
                op = {**op, "how": ("append", "insert", "setitem", "extend", "iadd", "setslice")[op["k"] % 6], "sl": [0, 0, None], "n": 1, "seed": 1}
            where = f"{where} {op['how']} on {name}{list(path)}"
            list_op(op, arr, am, where, world, random.Random(op["seed"]), unboxed, wrong, seen, inv)
        elif k == "badnew":
            bad = wrong(op["t"], op["bad"])
            out = attempt(construct, op["t"], bad)
            if out.ok:
                raise Violation("accepted", f"{where}: a {op['t']} variable was created with {bad!r:.100}")
            world.probe("refused-new")
        elif k in ("badval", "badsave"):
            x = var(name)
            inner = leaves(m)
            path, t = inner[op["path"][0] % len(inner)]
            root, x = x, at(name, path)
            bad = wrong(t, op["bad"])
            old = x.value
            x.value = bad
            if path:
                world.probe("wrong-inside")
            out = attempt(root.assert_types)
            if out.ok or not isinstance(out.exc, ValueError):
                raise Violation("accepted", f"{where}: assert_types of {name} with a {t} variable at {list(path)} holding {bad!r:.100} {'passed' if out.ok else out.describe()}")
            if k == "badsave":
                out, data = save({"layer": "bytesio"})
                if out.ok:
                    raise Violation("accepted", f"{where}: a level with a {t} variable holding {bad!r:.100} was saved without an error")
                world.probe("refused-save")
            x.value = old
        elif k == "member":
            found = structs(m)
            if not found:
                continue
            path, sm = found[op["path"][0] % len(found)]
            x = at(name, path)
            key = "abcdef"[op["path"][1] % 6]
            if op["path"][2] % 3 == 0 and key in sm[1]:
                del sm[1][key]
                del x.value[key]
            else:
                nm = model_of(gen_grid(random.Random(op["seed"]), op["t"], 1))
                sm[1][key] = nm
                x.value[key] = build(nm)
        elif k == "rebind":
            t = m[0]
            nm = model_of(gen_grid(random.Random(op["seed"]), t, 1))
            x = var(name)
            x.value = unboxed("a", payload(nm)) if t == "a" else unboxed(t, payload(nm))
            model[name] = nm
        elif k in ("new", "wrap"):
            nm = model_of(gen_grid(random.Random(op["seed"]), op["t"], 2))
            new = f"k{len(model)}"
            if k == "wrap" and nm[0] in "at":
                if nm[0] == "a":
                    given = [build(whole(nm[1], p)) for p in nm[2]]
                    x = must(lambda: T["a"](T[nm[1]], given), where)
                    given.append(V.VariableInt(1))
                    given[:1] = []
                else:
                    given = {kk: build(v) for kk, v in nm[1].items()}
                    x = must(lambda: T["t"](given), where)
                    given["zz"] = V.VariableInt(1)
                world.probe("container-changed-after")
            else:
                x = must(lambda: build(nm), where)
            if len(model) < 6:
                model[new] = nm
                state["lv"].variables[new] = x
        elif k == "copy":
            x = must(lambda: copy.deepcopy(var(name)), where)
            if x != var(name):
                raise Violation("equality", f"{where}: a copy of {name} is not equal to it")
            if len(model) < 6:
                model[f"k{len(model)}"] = copy.deepcopy(m)
                state["lv"].variables[f"k{len(model) - 1}"] = x
        elif k == "eq":
            for a in names:
                for b in names:
                    ca, cb = canon(model[a]), canon(model[b])
                    same = loose(ca) == loose(cb)
                    if (var(a) == var(b)) is not same or (var(a) != var(b)) is same:
                        raise Violation("equality", f"{where}: {show(ca)} and {show(cb)} are {'un' if same else ''}equal")
                    if same and must(lambda: hash(var(a)), where) != must(lambda: hash(var(b)), where):
                        raise Violation("equality", f"{where}: equal variables {show(ca)} hash differently")
        elif k == "drop":
            last = names[-1]
            if len(names) > 1:
                del model[last]
                del state["lv"].variables[last]
        elif k in ("save", "fail", "intsave", "reload"):
            if k == "intsave":
                tr = LineTracer()
                save({"layer": "bytesio"}, tr)
                out, data = save({"layer": "bytesio"}, LineTracer(raise_at=1 + int(op["when"] * tr.n), exc=INTERRUPTS[op["int"]]()))
                if not out.ok:
                    world.fault("interrupt-" + op["int"])
            else:
                out, data = save(op["w"])
            if not out.ok:
                if k in ("save", "reload"):
                    raise Violation("unexpected-error", f"{where}: saving to healthy storage {out.describe()}")
                world.probe("failed-save")
            else:
                disk = (data, copy.deepcopy(model))
            if k == "reload":
                load(data, op["r"])
                world.probe("reload")
        elif k == "crash":
            world.fault("crash")
            if disk is None:
                state["lv"] = Level()
                model.clear()
            else:
                load(disk[0], op["r"])
                model = copy.deepcopy(disk[1])
        else:
            raise InvalidPlan(k)
        check(where)
        world.log(k, sha(repr([canon(x) for x in model.values()]).encode()))


def loose(c):
    """Equality does not look at the order of the members of a struct."""
    if c[0] == "t":
        return ("t", frozenset((k, loose(x)) for k, x in c[1]))
    if c[0] == "a":
        return ("a", c[1], tuple(loose(x) for x in c[2]))
    return c


def list_op(op, arr, am, where, world, rng, unboxed, wrong, seen, inv):
    how, et, ps = op["how"], am[1], am[2]
    fresh = [payload(model_of(gen_grid(rng, et, 1))) for _ in range(max(1, op["n"]))]
    if ps and et in "biufsv" and rng.random() < 0.3:
        fresh[0] = ps[rng.randrange(len(ps))]
    n = len(ps)
    i = op["k"]
    sl = slice(*op["sl"])
    vals = [unboxed(et, p) for p in fresh]
    bad = "bad" in op and how in ("append", "insert", "setitem", "extend", "iadd", "setslice")
    badat = 0
    if bad:
        badat = op["bad"] % len(fresh) if how in ("extend", "iadd", "setslice") else 0
        vals[badat] = wrong(et, op["bad"])
    if how in ("setitem", "delitem") and bad and n:
        i = i % n
    many = fresh if op["n"] else []
    mvals = vals if op["n"] else []
    if bad and how in ("extend", "iadd", "setslice"):
        many, mvals = fresh, vals
    before = list(ps)
    after = list(ps)
    err = None
    want = None  # returned value
    try:
        if how == "append":
            after.append(fresh[0])
        elif how == "insert":
            after.insert(i, fresh[0])
        elif how == "setitem":
            after[i] = fresh[0]
        elif how == "delitem":
            del after[i]
        elif how == "pop":
            want = after.pop(i) if i % 2 else after.pop()
        elif how in ("extend", "iadd"):
            after.extend(many)
        elif how == "extself":
            after.extend(list(after))
        elif how == "reverse":
            after.reverse()
        elif how == "clear":
            after.clear()
        elif how == "remove":
            after.remove(fresh[0])
        elif how == "getslice":
            want = after[sl]
        elif how == "setslice":
            after[sl] = many
        elif how == "delslice":
            del after[sl]
        elif how == "find":
            want = after.index(fresh[0])
        else:
            raise InvalidPlan(how)
    except (IndexError, ValueError) as e:
        err = type(e)
        after = list(before)
    if how in ("remove", "find", "extself") and et in "at":
        return  # their members are variables of their own, equality and sharing of which is another matter

    def go():
        if how == "append":
            arr.append(vals[0])
        elif how == "insert":
            arr.insert(i, vals[0])
        elif how == "setitem":
            arr[i] = vals[0]
        elif how == "delitem":
            del arr[i]
        elif how == "pop":
            return arr.pop(i) if i % 2 else arr.pop()
        elif how == "extend":
            arr.extend(iter(mvals) if i % 2 else mvals)
        elif how == "iadd":
            a = arr
            a += mvals
            if a is not arr:
                raise Violation("list", f"{where}: += made another array")
        elif how == "extself":
            arr.extend(arr)
        elif how == "reverse":
            arr.reverse()
        elif how == "clear":
            arr.clear()
        elif how == "remove":
            arr.remove(vals[0])
        elif how == "getslice":
            return arr[sl]
        elif how == "setslice":
            arr[sl] = mvals
        elif how == "delslice":
            del arr[sl]
        elif how == "find":
            return arr.index(vals[0])
        return None

    fired = False
    if "int" in op:
        twin = copy.deepcopy(arr)
        keep, arr = arr, twin
        with LineTracer() as count:
            attempt(go)
        arr = keep
        tr = LineTracer(1 + int(op["when"] * count.n), INTERRUPTS[op["int"]]("simulated"))
        with tr:
            out = attempt(go)
        fired = bool(tr.fired)
        if fired:
            world.fault(op["int"])
    else:
        out = attempt(go)
    if isinstance(out.exc, Violation):
        raise out.exc
    c = [canon_p(et, p) for p in before], [canon_p(et, p) for p in after]
    now = [sp.observe_var(e, inv) for e in arr.value[1]]
    if fired:
        if how in SINGLE:
            if now not in c:
                raise Violation("torn", f"{where}: interrupted, the array is {now!r:.120}, was {c[0]!r:.120}")
        else:
            pool = c[0] + [canon_p(et, p) for p in fresh]
            if any(e not in pool for e in now) or len(now) > 2 * len(c[0]) + len(fresh):
                raise Violation("torn", f"{where}: interrupted, the array is {now!r:.120}, was {c[0]!r:.120}")
        ps[:] = [payload(from_canon(e)) for e in now]
        return
    world.probe("list-" + how)
    if bad:
        if out.ok:
            raise Violation("accepted", f"{where}: {vals[badat]!r:.80} was accepted in an array of type {et}")
        world.probe("refused-element")
        if how in ("extend", "iadd"):
            ps[:] = before + fresh[:badat] if len(now) > len(before) or badat == 0 else before
        return
    if err is not None:
        if out.ok or not isinstance(out.exc, err):
            raise Violation("list", f"{where}: {out.describe()}, a list of values raises {err.__name__}")
        return
    if not out.ok:
        raise Violation("list", f"{where}: {out.describe()}")
    if how == "pop" and seen(et, out.value) != canon_p(et, want):
        raise Violation("list", f"{where}: popped {out.value!r:.80}, should be {want!r:.80}")
    if how == "find" and out.value != want:
        raise Violation("list", f"{where}: found at {out.value}, is at {want}")
    if how == "getslice":
        got = [seen(et, e) for e in out.value]
        if got != [canon_p(et, p) for p in want]:
            raise Violation("list", f"{where}: slice {op['sl']} gives {got!r:.100}, should be {want!r:.100}")
    ps[:] = [copy.deepcopy(p) if any(p is q for q in after[:j]) else p for j, p in enumerate(after)]


def canon_p(t, p):
    return canon(whole(t, p))
