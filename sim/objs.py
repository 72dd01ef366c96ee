"""The four kinds of things dustmaker stores, behind one interface."""
import io

from . import refcodec as rc
from . import spec as sp
from . import kernel
from .kernel import InvalidPlan

HEADERS = (b"DF_STA", b"DF_CFG", b"DF_FOG")
KINDS = ("level", "var", "replay")


def gen_obj(rng, kind, scale=1, big=0.0, dense=0.0):
    if kind == "level":
        return sp.gen_level(rng, scale, big, dense=dense)
    if kind == "var":
        s = {"header": rng.choice(["DF_STA", "DF_STA", "DF_CFG", "DF_FOG", "DF_FOG", "", "X", "DF_STATS"]), "vars": sp.gen_vmap(rng, rng.choice([0, 1, 2, 4, 7]), 3, big)}
        if dense and rng.random() < dense:
            s["vars"] = [kv for kv in s["vars"] if kv[0] != "dense"]
            s["vars"].insert(rng.randint(0, len(s["vars"])), ["dense", sp.gen_dense_var(rng)])
        return s
    return sp.gen_replay(rng, small=rng.random() < 0.5, dense=dense)


def build(kind, s):
    try:
        return _build(kind, s)
    except Exception:
        if kernel.SHRINKING:
            raise InvalidPlan("object cannot be built") from None
        raise


def _build(kind, s):
    if kind == "level":
        return sp.build_level(s)
    if kind == "var":
        return sp.build_vmap(s["vars"])
    return sp.build_replay(s)


def save(w, kind, obj, s):
    if kind == "level":
        w.write_level(obj)
    elif kind == "var":
        w.write_var_file(s["header"].encode(), obj)
    else:
        w.write_replay(obj, force_username=bool(s.get("force")))


def load(r, kind, s, known=None):
    if kind == "level":
        return r.read_level()
    if kind == "var":
        return r.read_var_file(s["header"].encode())
    return r.read_replay(known_length=known) if known else r.read_replay()


def canon(kind, s, persisted=True):
    if kind == "level":
        return sp.canon_level(s, persisted)
    if kind == "var":
        return sp.canon_vmap(s["vars"])
    return sp.canon_replay(s)


def observe(kind, obj, persisted=True):
    if kind == "level":
        return sp.observe_level(obj, persisted)
    if kind == "var":
        return sp.observe_vmap(obj)
    return sp.observe_replay(obj)


def diff(kind, a, b):
    if kind == "level":
        return sp.diff_level(a, b)
    if kind == "var":
        return sp.diff_vmap(a, b)
    return sp.diff_replay(a, b)


def encode(kind, s, opt=None):
    """Reference encoding."""
    if kind == "level":
        return rc.enc_level(s, opt)
    if kind == "var":
        return rc.enc_varfile(s["header"].encode(), s["vars"])
    return rc.enc_replay(s, (opt or {}).get("zlevel", 6))[0]


def decode(kind, data, s, start=0, strict=True):
    """Reference decoding: (canonical value, end position)."""
    if kind == "level":
        out, info = rc.dec_level(data, start, strict)
        return out, info["end"]
    if kind == "var":
        out, size = rc.dec_varfile(data, s["header"].encode(), start, strict)
        return out, start + size
    return rc.dec_replay(data, start, strict)


def raw_size(kind, s):
    """Size of the uncompressed content, for step budgets."""
    if kind == "level":
        n = 0
        for reg in rc.split_regions(s).values():
            for q, seg in reg["segs"].items():
                n += len(rc.enc_segment(seg, q[0], q[1], {}))
            if reg["bd"] is not None:
                n += len(rc.enc_segment(reg["bd"], 0, 0, {}))
        return n
    if kind == "var":
        return 0
    return len(rc.enc_replay_block(s))


def plain_save(kind, obj, s):
    from dustmaker.dfwriter import DFWriter

    out = io.BytesIO()
    with DFWriter(out, noclose=True) as w:
        save(w, kind, obj, s)
    return out.getvalue()


def frz(x):
    """Stable text of an observation, for exact comparison."""
    if isinstance(x, dict) and "tiles" in x:
        return sp.freeze(x)
    if isinstance(x, dict):
        return repr(sorted(x.items(), key=lambda kv: repr(kv[0])))
    return repr(x)


def check_kind(kind):
    if kind not in KINDS:
        raise InvalidPlan(kind)


def snapshot(x, seen=None):
    """Deep picture of everything public in an object of the code under test,
    with the order of mappings, for exact before/after comparison."""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return repr(x)
    if isinstance(x, (bytearray, memoryview)):
        return repr(bytes(x))
    if isinstance(x, type) or callable(x):
        return getattr(x, "__qualname__", "?")
    if id(x) in seen:
        return f"<{seen[id(x)]}>"
    seen[id(x)] = len(seen)
    if isinstance(x, dict):
        return ("d", tuple((snapshot(k, seen), snapshot(v, seen)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v, seen) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("s", tuple(sorted(repr(snapshot(v, seen)) for v in x)))
    names = set(getattr(x, "__dict__", ()))
    for c in type(x).__mro__:
        sl = c.__dict__.get("__slots__", ())
        names.update([sl] if isinstance(sl, str) else sl)
    return (type(x).__name__, tuple((n, snapshot(getattr(x, n), seen)) for n in sorted(names) if not n.startswith("_") and hasattr(x, n)))
