"""Commands of the command line tools: argument lists, inputs, and stand-ins shared by C14 and C15."""
import json
import types

from . import refcodec as rc
from . import spec as sp
from .kernel import InvalidPlan

SCHEMA = {"b": "bool", "i": "int", "u": "uint", "f": "float", "s": "string", "v": "vec2"}


# ---------------------------------------------------------- JSON documents of variables
class Conflict(Exception):
    """The variables have no common schema (documented limitation of the format)."""


def merge(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = merge(out[k], v) if k in out else v
        return out
    if isinstance(a, list) and isinstance(b, list):
        if not a or not b:
            return a or b
        return [merge(a[0], b[0])]
    if isinstance(a, str) and a == b:
        return a
    raise Conflict()


def doc_var(v):
    """canonical variable -> (schema, JSON value); independent of the tool."""
    t = v[0]
    if t in "biuf":
        return SCHEMA[t], v[1]
    if t == "s":
        return "string", v[1].decode("latin1")
    if t == "v":
        return "vec2", list(v[1])
    if t == "t":
        schema, vals = {}, {}
        for k, x in v[1]:
            schema[k], vals[k] = doc_var(x)
        return schema, vals
    et = v[1]
    schema = [[]] if et == "a" else [{}] if et == "t" else [SCHEMA[et]]
    vals = []
    for x in v[2]:
        s, j = doc_var(x)
        schema = merge(schema, [s])
        vals.append(j)
    return schema, vals


def doc(canon_vmap):
    schema, vals = doc_var(("t", canon_vmap))
    return {"vars": vals, "schema": schema}


def undoc(schema, val):
    """JSON document -> canonical variable; independent of the tool."""
    if isinstance(schema, dict):
        return ("t", tuple((k, undoc(schema[k], x)) for k, x in val.items()))
    if isinstance(schema, list):
        e = schema[0]
        et = "a" if isinstance(e, list) else "t" if isinstance(e, dict) else next(k for k, n in SCHEMA.items() if n == e)
        return ("a", et, tuple(undoc(e, x) for x in val))
    t = next(k for k, n in SCHEMA.items() if n == schema)
    if t == "s":
        return ("s", val.encode("latin1"))
    if t == "v":
        return ("v", tuple(val))
    return (t, val)


BAD_DOCS = (
    "", "{", "[]", "null", '{"vars": {}}', '{"schema": {}}', '{"vars": {"a": 1}, "schema": {}}', '{"vars": {"a": 1}, "schema": {"a": "nope"}}',
    '{"vars": {"a": "x"}, "schema": {"a": "int"}}', '{"vars": {"a": 4294967296}, "schema": {"a": "uint"}}', '{"vars": {"a": -2147483649}, "schema": {"a": "int"}}',
    '{"vars": {"a": -1}, "schema": {"a": "uint"}}', '{"vars": {"a": 1e10}, "schema": {"a": "float"}}', '{"vars": {"a": 1e300}, "schema": {"a": "float"}}',
    '{"vars": {"a": NaN}, "schema": {"a": "float"}}', '{"vars": {"a": "\\u0100"}, "schema": {"a": "string"}}', '{"vars": {"a-b": 1}, "schema": {"a-b": "int"}}',
    '{"vars": {"z": 1, "a b": 1}, "schema": {"a b": "int", "z": "int"}}', '{"vars": {"a": [1, "x"]}, "schema": {"a": ["int"]}}',
    '{"vars": {"a": [1.5]}, "schema": {"a": "vec2"}}', '{"vars": {"k": true, "a": [[0.5, 3e9]]}, "schema": {"k": "bool", "a": ["vec2"]}}',
    '{"vars": {"x": 1, "%s": 1}, "schema": {"x": "int", "%s": "int"}}' % ("k" * 64, "k" * 64), '{"vars": [], "schema": []}', '{"vars": 3, "schema": "int"}',
    '{"vars": {"first": "ok", "a": {"n": [1, 2, 3000000000]}}, "schema": {"first": "string", "a": {"n": ["int"]}}}', "\xff\xfe", '{"vars": {"a": 1}, "schema": {"a": []}}',
)


def bad_doc(i):
    if i == len(BAD_DOCS):  # an array that is too long to be stored
        return json.dumps({"vars": {"q": 1, "a": [True] * 65536}, "schema": {"q": "int", "a": ["bool"]}}).encode()
    d = BAD_DOCS[i % len(BAD_DOCS)]
    return d.encode("latin1")


# ----------------------------------------------------------------------- inputs
KNOWN_LEVELS = ("downhill", "shadedgrove", "dahlia", "fields", "momentum", "abyss", "dome", "core", "nope", "mary2", "orb")


def gen_stats(rng, bad=False):
    """A vanilla save file."""
    scores = []
    for _ in range(rng.choice([0, 1, 2, 5])):
        sc = [
            ["file_name", ["s", rng.choice(KNOWN_LEVELS)]], ["combo", ["i", rng.randint(0, 5)]], ["time", ["f", rng.randint(0, 4000) / 8]],
            ["thorough", ["f", 1.0]], ["best_time", ["f", rng.randint(0, 4000) / 8]], ["overall", ["i", rng.randint(0, 5)]], ["extra", ["b", True]],
        ]
        rng.shuffle(sc)
        scores.append(["t", sc])
    if bad and scores:
        scores[-1][1] = [kv for kv in scores[-1][1] if kv[0] != "time"]
    out = [["score", ["a", "t", scores]], ["red_used", ["i", rng.randint(0, 9)]], ["gore", ["b", True]], ["other", ["u", 7]]]
    if rng.random() < 0.3:
        out.pop(1)
    return out


def gen_flat_vmap(rng, depth=2):
    return sp.gen_vmap(rng, rng.choice([0, 1, 2, 4]), depth)


def level_bytes(s, opt):
    return rc.enc_level(s, opt)


def transform_args(t):
    out = []
    if t.get("upscale", 1) != 1:
        out += ["--upscale", str(t["upscale"])]
    if t.get("rotate", 0):
        out += [f"--rotate={t['rotate']}"]
    if t.get("vflip"):
        out.append("--vflip")
    if t.get("hflip"):
        out.append("--hflip")
    if t.get("tx"):
        out.append(f"--translate-x={t['tx']!r}")
    if t.get("ty"):
        out.append(f"--translate-y={t['ty']!r}")
    return out


def gen_transform(rng):
    return {
        "upscale": rng.choice([1, 1, 1, 2, 3]), "rotate": rng.choice([0, 0, 1, 2, 3, -1, 5, -6]), "vflip": rng.random() < 0.35, "hflip": rng.random() < 0.35,
        "tx": rng.choice([0, 0, 48.0, -96.0, 768.0, 4800.0, -12288.0, 7.0, -301.0, 0.25, 99.75]), "ty": rng.choice([0, 0, 48.0, -48.0, 480.0, -4800.0, 23.0, -1000.0, -0.25, 48.25]),
    }


def argv_of(c):
    """Command record -> (entry module, argv)."""
    k = c["cmd"]
    if k == "thumb-x":
        return "thumbnail", ["thumbnail", c["level"], c["image"]] + (["--force"] if c.get("force") else [])
    if k == "thumb-u":
        extra = {"update": ["--update"], "convert": ["--auto-convert"], "scale": ["--auto-scale"]}[c.get("how", "update")]
        return "thumbnail", ["thumbnail", c["level"], c["image"]] + extra + (["--force"] if c.get("force") else [])
    if k == "vars-u":
        return "variables", ["variables", c["object"], c["json"]] + ([f"--header={c['header']}"] if c.get("header") else [])
    if k == "vars-p":
        return "variables", ["variables", c["object"]] + ([f"--indent={c['indent']}"] if c.get("indent") is not None else [])
    if k == "transform":
        return "transform", ["transform", c["in"], c["out"]] + transform_args(c["t"])
    if k == "saveconvert":
        return "save_convert", ["saveconvert", c["in"], c["out"]]
    raise InvalidPlan("command")


# -------------------------------------------------------------- image library stand-in
def convert(data, scaled):
    """What the stand-in image library makes of an image."""
    if data.startswith(b"NOTIMG"):
        return None
    return b"\x89PNG\r\n" + (b"382x182|" if scaled else b"") + data[:2000]


def fake_pil():
    pil = types.ModuleType("PIL")
    image = types.ModuleType("PIL.Image")

    class Img:
        def __init__(self, data, scaled=False):
            self.data = data
            self.scaled = scaled
            self.size = (382, 182) if scaled else (640, 480)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

        def resize(self, size, *_a, **_k):
            return Img(self.data, tuple(size) == (382, 182))

        def save(self, fp, format=None, **_k):  # pylint: disable=redefined-builtin
            fp.write(convert(self.data, self.scaled))

    def _open(fp, *_a, **_k):
        data = fp.read() if hasattr(fp, "read") else open(fp, "rb").read()  # pylint: disable=consider-using-with
        if convert(data, False) is None:
            raise OSError("cannot identify image file")
        return Img(data)

    image.open = _open
    pil.Image = image
    return {"PIL": pil, "PIL.Image": image}
