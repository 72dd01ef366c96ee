"""Independent encoder and decoder of the Dustforce level, variable and replay
formats.  Shares no code with dustmaker; works on the spec / canonical values of
spec.py."""
import random
import zlib

from .spec import INTENTS, KEYCH, VT, VT_INV, canon_edges, intent_default, strip_filth, trim, xbytes


class FormatError(Exception):
    """The bytes are not a consistent file."""


def need(cond, msg):
    if not cond:
        raise FormatError(msg)


class BitW:
    def __init__(self):
        self.buf = bytearray()
        self.acc = 0
        self.n = 0

    def u(self, bits, v):
        v &= (1 << bits) - 1
        self.acc |= v << self.n
        self.n += bits
        if self.n >= 256:
            k = self.n >> 3
            self.buf += (self.acc & ((1 << (8 * k)) - 1)).to_bytes(k, "little")
            self.acc >>= 8 * k
            self.n &= 7

    def raw(self, b):
        if self.n & 7 == 0:
            self.align()
            self.buf += b
        else:
            self.u(8 * len(b), int.from_bytes(b, "little"))

    def align(self):
        k = (self.n + 7) >> 3
        self.buf += self.acc.to_bytes(k, "little")
        self.acc = 0
        self.n = 0

    def tell(self):
        return len(self.buf) * 8 + self.n

    def bytes(self):
        self.align()
        return bytes(self.buf)


class BitR:
    def __init__(self, data, pos=0, end=None):
        self.d = data
        self.p = pos * 8
        self.end = (len(data) if end is None else end) * 8

    def u(self, bits):
        p = self.p
        need(p + bits <= self.end, f"data ends inside a field at bit {p}")
        b0 = p >> 3
        b1 = (p + bits + 7) >> 3
        v = (int.from_bytes(self.d[b0:b1], "little") >> (p & 7)) & ((1 << bits) - 1)
        self.p = p + bits
        return v

    def s(self, bits):
        v = self.u(bits)
        return v - (1 << bits) if v >> (bits - 1) else v

    def raw(self, n):
        if self.p & 7 == 0:
            need(self.p + 8 * n <= self.end, f"data ends inside {n} bytes at bit {self.p}")
            b = bytes(self.d[self.p >> 3 : (self.p >> 3) + n])
            self.p += 8 * n
            return b
        return self.u(8 * n).to_bytes(n, "little")

    def align(self):
        self.p = (self.p + 7) & ~7


# -------------------------------------------------------------------- primitives
def w_str6(w, s):
    need(len(s) <= 63, "6 bit string too long")
    w.u(6, len(s))
    for c in s:
        w.u(6, KEYCH.index(c))


def r_str6(r):
    return "".join(KEYCH[r.u(6)] for _ in range(r.u(6)))


def w_fixed(w, ib, fb, v):
    """sign, |floor|, fraction in units of 2^-(fb-1)"""
    import math

    fl = math.floor(v)
    w.u(1, 1 if v < 0 else 0)
    w.u(ib - 1, abs(fl))
    w.u(fb, int((v - fl) * (1 << (fb - 1))))


def r_fixed(r, ib, fb):
    sg = r.u(1)
    ip = r.u(ib - 1)
    fp = r.u(fb)
    return (-ip if sg else ip) + fp / float(1 << (fb - 1))


# --------------------------------------------------------------------- variables
W16 = 65535


def w_var(w, v):
    t = v[0]
    if t == "b":
        w.u(1, 1 if v[1] else 0)
    elif t in "iu":
        w.u(32, v[1])
    elif t == "f":
        w_fixed(w, 32, 32, v[1])
    elif t == "s":
        b = v[1] if isinstance(v[1], bytes) else xbytes(v[1])
        need(len(b) <= W16, "string too long")
        w.u(16, len(b))
        w.raw(b)
    elif t == "v":
        w_fixed(w, 32, 32, v[1][0])
        w_fixed(w, 32, 32, v[1][1])
    elif t == "a":
        elems = v[2]
        if v[1] == "s":
            parts = []
            for e in elems:
                parts += split(xbytes(e[1]))
            elems = [("s", p) for p in parts]
        w.u(4, VT[v[1]])
        w.u(16, len(elems))
        for e in elems:
            w_var(w, e)
    elif t == "t":
        w_vmap(w, v[1])
    else:
        raise FormatError(t)


def split(b):
    out = []
    while len(b) >= W16:
        out.append(b[:W16])
        b = b[W16:]
    return out + [b]


def w_vmap(w, m):
    for k, v in m:
        parts = [("s", p) for p in split(xbytes(v[1]))] if v[0] == "s" else [v]
        for p in parts:
            w.u(4, VT[v[0]])
            w_str6(w, k)
            w_var(w, p)
    w.u(4, 0)


def r_var(r, t, depth=0):
    need(depth < 60, "variables nested too deeply")
    if t == "b":
        return ("b", bool(r.u(1)))
    if t == "i":
        return ("i", r.s(32))
    if t == "u":
        return ("u", r.u(32))
    if t == "f":
        return ("f", r_fixed(r, 32, 32))
    if t == "s":
        return ("s", r.raw(r.u(16)))
    if t == "v":
        return ("v", (r_fixed(r, 32, 32), r_fixed(r, 32, 32)))
    if t == "t":
        return ("t", r_vmap(r, depth + 1))
    et = r.u(4)
    need(et in VT_INV, f"array of type {et}")
    et = VT_INV[et]
    n = r.u(16)
    elems = [r_var(r, et, depth + 1) for _ in range(n)]
    if et == "s":
        out, cur = [], None
        for _, b in elems:
            cur = b if cur is None else cur + b
            if len(b) < W16:
                out.append(("s", cur))
                cur = None
        need(cur is None, "string continuation missing at the end of an array")
        elems = out
    return ("a", et, tuple(elems))


def r_vmap(r, depth=0):
    out = {}
    while True:
        t = r.u(4)
        if t == 0:
            return tuple(out.items())
        need(t in VT_INV, f"variable of type {t}")
        k = r_str6(r)
        v = r_var(r, VT_INV[t], depth)
        if t == 5:
            parts = [v[1]]
            while len(parts[-1]) == W16:
                need(r.u(4) == 5 and r_str6(r) == k, "string continuation has another type or name")
                parts.append(r_var(r, "s")[1])
            v = ("s", b"".join(parts))
        need(k not in out, f"duplicate key {k!r}")
        out[k] = v


def enc_varfile(header, m, version=1, size=None):
    w = BitW()
    w_vmap(w, m)
    body = w.bytes()
    w = BitW()
    w.u(16, version)
    w.u(32, len(header) + 6 + len(body) if size is None else size)
    return header + w.bytes() + body


def dec_varfile(data, header, start=0, strict=False):
    need(data[start : start + len(header)] == header, "wrong header")
    r = BitR(data, start + len(header))
    ver = r.u(16)
    need(not strict or ver == 1, f"variable file version {ver}")
    size = r.u(32)
    need(start + size <= len(data), "size beyond the end of the data")
    m = r_vmap(r)
    r.align()
    need(r.p // 8 - start == size, f"size field {size}, content {r.p // 8 - start}")
    return m, size


# ------------------------------------------------------------------------- tiles
SWAP = (False, True, True, False)  # sides stored with their corners swapped


def pack_tile(t):
    b = bytearray(12)
    for side, e in enumerate(t[8]):
        c0, c1, a0, a1 = e[2], e[3], e[4], e[5]
        if SWAP[side]:
            c0, c1, a0, a1 = c1, c0, a1, a0
        for val, off in ((e[0], side), (e[1], 4 + side), (c0, 8 + 2 * side), (c1, 9 + 2 * side)):
            if val:
                b[off >> 3] |= 1 << (off & 7)
        b[2 + 2 * side] = a0 & 255
        b[3 + 2 * side] = a1 & 255
    b[10] = t[5] | t[7] << 4
    b[11] = t[6]
    return bytes(b)


def pack_dust(t):
    b = bytearray(12)
    for side, e in enumerate(t[8]):
        c0, c1, a0, a1 = e[8], e[9], e[10], e[11]
        if SWAP[side]:
            c0, c1, a0, a1 = c1, c0, a1, a0
        off = 4 * side
        b[off >> 3] |= (e[6] | (8 if e[7] else 0)) << (off & 7)
        b[2 + 2 * side] = a0 & 255
        b[3 + 2 * side] = a1 & 255
        b[10] |= (1 if c0 else 0) << (2 * side) | (2 if c1 else 0) << (2 * side)
    return bytes(b)


def s8(v):
    return v - 256 if v > 127 else v


def unpack_tile(b):
    edges = []
    for side in range(4):
        bit = lambda off: b[off >> 3] >> (off & 7) & 1  # noqa: E731
        c0, c1 = bit(8 + 2 * side), bit(9 + 2 * side)
        a0, a1 = s8(b[2 + 2 * side]), s8(b[3 + 2 * side])
        if SWAP[side]:
            c0, c1, a0, a1 = c1, c0, a1, a0
        edges.append([bit(side), bit(4 + side), c0, c1, a0, a1, 0, 0, 0, 0, 0, 0])
    return b[10] & 15, b[11], b[10] >> 4, edges


def unpack_dust(b, edges):
    for side in range(4):
        v = b[side >> 1] >> (4 * (side & 1)) & 15
        c = b[10] >> (2 * side) & 3
        c0, c1 = c & 1, c >> 1
        a0, a1 = s8(b[2 + 2 * side]), s8(b[3 + 2 * side])
        if SWAP[side]:
            c0, c1, a0, a1 = c1, c0, a1, a0
        edges[side][6:] = [v & 7, v >> 3, c0, c1, a0, a1]


FILTH = {
    "enemy_slime_beast": 9, "enemy_slime_barrel": 3, "enemy_spring_ball": 5, "enemy_slime_ball": 3, "enemy_trash_tire": 3, "enemy_trash_beast": 9,
    "enemy_trash_can": 9, "enemy_trash_ball": 3, "enemy_bear": 9, "enemy_stoneboss": 12, "enemy_stonebro": 3, "enemy_wolf": 5, "enemy_critter": 3,
    "enemy_flag": 5, "enemy_chest_treasure": 9, "enemy_chest_scrolls": 9, "enemy_knight": 9, "enemy_gargoyle_big": 5, "enemy_gargoyle_small": 3,
    "enemy_book": 3, "enemy_hawk": 3, "enemy_door": 0, "enemy_key": 1, "enemy_tutorial_square": 1, "enemy_tutorial_hexagon": 1, "enemy_porcupine": 1,
    "enemy_scrolls": 1, "enemy_treasure": 1, "enemy_butler": 1, "enemy_maid": 1,
}
DUSTBLOCK = {1: 21, 2: 13, 3: 6, 4: 9, 5: 2}


def totals(tiles, etypes):
    """(dust, enemy, surface, dustblock) of a segment; tiles: (layer, tile spec)."""
    dust = surf = blocks = 0
    for layer, sset, stile, edges in tiles:
        if layer != 19:
            continue
        blocks += DUSTBLOCK.get(sset) == stile
        for e in edges:
            if e[6] and e[7]:
                continue  # spikes
            dust += e[6] != 0
            surf += bool(e[0] and e[1])
    return dust, sum(FILTH.get(t, 0) for t in etypes), surf, blocks


# ------------------------------------------------------------------------- level
def div(a, b):
    return a // b


def tdiv(v):
    """tile coordinate of a pixel coordinate"""
    return int(v / 48)


def enc_segment(seg, sx, sy, opt, dustmod=False):
    """seg: {"tiles": [...], "props": [...], "entities": [...]} in spec form, tile
    coordinates relative to nothing (taken modulo 16)."""
    ver = opt.get("segver", 8)
    junk = opt.get("junk", 0)
    b = BitW()
    flags = 0
    layers = {}
    for t in seg["tiles"]:
        layers.setdefault(t[0], []).append(t)
    if layers:
        flags |= 1
        order = sorted(layers)
        if opt.get("shuffle"):
            order.sort(key=lambda l: (l * 7919 + opt["shuffle"]) % 101)
        b.u(8, len(order))
        for layer in order:
            b.u(8, layer)
            b.u(10, len(layers[layer]))
            for t in layers[layer]:
                b.u(5, t[1] & 15)
                b.u(5, t[2] & 15)
                b.u(5, t[3])
                b.u(3, t[4])
                b.raw(pack_tile(t))
    dusts = [t for t in layers.get(19, ()) if any(e[6] for e in t[8])]
    extra_dust = opt.get("stray_dust", 0)
    if dusts or extra_dust:
        flags |= 2
        have = {(t[1] & 15, t[2] & 15) for t in layers.get(19, ())}
        stray = [(x, y) for x in range(16) for y in range(16) if (x, y) not in have][:extra_dust]
        b.u(10, len(dusts) + len(stray))
        for x, y in stray:
            b.u(5, x)
            b.u(5, y)
            b.raw(bytes(12))
        for t in dusts:
            b.u(5, t[1] & 15)
            b.u(5, t[2] & 15)
            b.raw(pack_dust(t))
    if seg["props"]:
        flags |= 8
        b.u(16, len(seg["props"]))
        for p in seg["props"]:
            b.u(32, p[0])
            if p[0] < 0:
                continue
            b.u(8, p[1])
            b.u(8, p[4])
            if ver > 6 or dustmod:
                xs, ys = (p[8] // 7) ^ 4, (p[8] % 7) ^ 4
                for v, sc in ((p[2], xs), (p[3], ys)):
                    b.u(1, 1 if v < 0 else 0)
                    b.u(27, int(abs(v)))
                    b.u(4, sc | (8 if junk & 1 else 0))
            else:
                w_fixed(b, 28, 4, p[2])
                w_fixed(b, 28, 4, p[3])
            b.u(16, p[5])
            b.u(1, p[6])
            b.u(1, p[7])
            b.u(8, p[9])
            b.u(12, p[10])
            b.u(12, p[11])
            b.u(8, p[12])
    if seg["entities"]:
        flags |= 4
        names = BitW()
        b.u(16, len(seg["entities"]))
        for e in seg["entities"]:
            b.u(32, e[0])
            if e[0] < 0:
                continue
            ext = ver > 7 and (e[3].startswith("z_") or e[3] == "entity" or e[3] in opt.get("extnames", ()))
            w_str6(b, "entity" if ext else e[3])
            if ext:
                w_str6(names, e[3])
            w_fixed(b, 32, 8, e[1])
            w_fixed(b, 32, 8, e[2])
            b.u(16, e[5])
            b.u(8, e[6])
            b.u(1, 0 if e[7] else 1)
            b.u(1, 0 if e[8] else 1)
            b.u(1, 1 if e[9] else 0)
            w_vmap(b, e[4])
        if ver > 7:
            nb = names.bytes()
            # The distance back to the names, in bits, ends the segment.
            p0 = b.tell()
            b.raw(nb)
            b.align()
            b.u(32, b.tell() - p0)
    body = b.bytes()
    if opt.get("pad") and not seg["entities"]:
        body += bytes(opt["pad"])
    w = BitW()
    hdr = 4 + 2 + 1 + 1 + 1 + (8 if ver > 4 else 0) + (4 if ver > 5 else 0) + 4
    w.u(32, hdr + len(body))
    w.u(16, ver)
    w.u(8, sx)
    w.u(8, sy)
    w.u(8, 16)
    tot = totals([(t[0], t[5], t[6], t[8]) for t in seg["tiles"]], [e[3] for e in seg["entities"]]) if not junk else (junk, junk, junk, junk)
    if ver > 4:
        w.u(32, junk)
        w.u(16, tot[0])
        w.u(16, tot[1])
    if ver > 5:
        w.u(16, tot[2])
        w.u(16, tot[3])
    w.u(32, flags | (junk << 4 if junk else 0))
    return w.bytes() + body


def split_regions(s):
    """spec level -> {(rx, ry): {"segs": {(sx, sy): seg}, "bd": seg or None}}"""
    regs = {}

    def reg(x, y):
        return regs.setdefault((x // 256, y // 256), {"segs": {}, "bd": None})

    def seg(x, y):
        return reg(x, y)["segs"].setdefault(((x // 16) & 15, (y // 16) & 15), {"tiles": [], "props": [], "entities": []})

    def bd(x, y):
        r = reg(x, y)
        if r["bd"] is None:
            r["bd"] = {"tiles": [], "props": [], "entities": []}
        return r["bd"]

    for t in s["tiles"]:
        seg(t[1], t[2])["tiles"].append(t)
    for p in s["props"]:
        seg(tdiv(p[2]), tdiv(p[3]))["props"].append(p)
    for e in s["entities"]:
        seg(tdiv(e[1]), tdiv(e[2]))["entities"].append(e)
    for t in s["bd_tiles"]:
        bd(t[1] * 16, t[2] * 16)["tiles"].append(t)
    for p in s["bd_props"]:
        bd(tdiv(p[2]), tdiv(p[3]))["props"].append(p)
    return regs


def region_key(k):
    return (k[0] & 0xFFFF, k[1] & 0xFFFF)


def enc_level(s, opt=None):
    """Encode a spec.  Options: level version ("ver"), segment version ("segver"),
    order of regions/segments ("shuffle"), junk in ignored fields ("junk"), zlib
    level, entityUid ("uid")."""
    opt = opt or {}
    ver = opt.get("ver", 44)
    regs = split_regions(s)
    keys = sorted(regs, key=region_key)
    sh = opt.get("shuffle", 0)
    if sh:
        keys.sort(key=lambda k: (k[0] * 131 + k[1] * 17 + sh) % 1009)
    lt = next((v[1] for k, v in s["vars"] if k == "level_type" and v[0] == "i"), 0)
    blobs = []
    for k in keys:
        r = regs[k]
        skeys = sorted(r["segs"])
        if sh:
            skeys.sort(key=lambda q: (q[0] * 37 + q[1] * 11 + sh) % 61)
        raw = b"".join(enc_segment(r["segs"][q], q[0], q[1], opt, lt == 6) for q in skeys)
        if r["bd"] is not None:
            raw += enc_segment(r["bd"], 0, 0, opt)
        z = zlib.compress(raw, opt.get("zlevel", 6))
        w = BitW()
        w.u(32, 17 + len(z))
        w.u(32, len(raw))
        w.u(16, k[0])
        w.u(16, k[1])
        w.u(16, opt.get("regver", 14))
        w.u(16, len(skeys))
        w.u(8, opt.get("bdflag", 1) if r["bd"] is not None else 0)
        blobs.append(w.bytes() + z)
    offs, pos = [], 0
    for b in blobs:
        offs.append(pos)
        pos += len(b)
    ids = [p[0] for p in s["props"]] + [e[0] for e in s["entities"]] + [p[0] for p in s["bd_props"]]
    uid = opt.get("uid", max([100] + ids) + 1)
    w = BitW()
    w.raw(b"DF_LVL")
    w.u(16, ver)
    fixed = 16 + 28 + ((4 + len(xbytes(s["sshot"]))) if ver > 43 else 0)
    v = BitW()
    w_vmap(v, s["vars"])
    if "dir" in opt:  # a directory of its own, not that of the regions there are
        offs = list(opt["dir"])
    for o in offs:
        v.u(32, o)
    tail = v.bytes()
    w.u(32, fixed + len(tail) + pos)
    w.u(32, len(offs))
    w.raw(b"DF_MTD")
    w.u(16, opt.get("mtdver", 4))
    w.u(32, opt.get("junk", 0))
    w.u(32, uid)
    for _ in range(3):
        w.u(32, opt.get("junk", 0))
    if ver > 43:
        b = xbytes(s["sshot"])
        w.u(32, len(b))
        w.raw(b)
    head = w.bytes()
    need(len(head) == fixed, "encoder bug")
    return head + tail + b"".join(blobs)


def placed(x, y, region, segment):
    """Whether the object at these pixels belongs into the region (and segment);
    a pixel of tolerance at the borders, either way of rounding there."""
    ok = []
    for v, rg, sg in ((x, region[0], 0), (y, region[1], 1)):
        tiles = {tdiv(v + d) for d in (-1, 0, 1)} | {int((v + d) // 48) for d in (-1, 0, 1)}
        ok.append(any(t // 256 == rg and (segment is None or t // 16 % 16 == segment[sg]) for t in tiles))
    return all(ok)


def dec_segment(r, end, out, base, mult, dustmod, strict):
    """Decode one segment at r; out: canonical collections to fill."""
    start = r.p // 8
    size = r.u(32)
    ver = r.u(16)
    sx, sy = r.u(8), r.u(8)
    width = r.u(8)
    if strict:
        need(sx < 16 and sy < 16, f"segment at ({sx}, {sy})")
        need(ver == 8, f"segment version {ver}")
        need(width == 16, f"segment {width} tiles wide")
    stored = [None] * 4
    if ver > 4:
        unused = r.u(32)
        need(not strict or not unused, f"unused segment field holds {unused}")
        stored[0], stored[1] = r.u(16), r.u(16)
    if ver > 5:
        stored[2], stored[3] = r.u(16), r.u(16)
    flags = r.u(32)
    need(start + size <= end, f"segment of {size} bytes exceeds its region")
    xo, yo = base[0] * mult + sx * 16, base[1] * mult + sy * 16
    tiles = {}
    ents = []
    if flags & 1:
        seen = set()
        for _ in range(r.u(8)):
            layer = r.u(8)
            if strict:
                need(layer not in seen, f"tile layer {layer} stored twice")
            seen.add(layer)
            for _ in range(r.u(10)):
                x, y, shape, fl = r.u(5), r.u(5), r.u(5), r.u(3)
                sset, st, pal, edges = unpack_tile(r.raw(12))
                if strict:
                    need((layer, x, y) not in tiles, f"tile {(layer, x, y)} stored twice in a segment")
                    need(x < 16 and y < 16, "tile outside its segment")
                tiles[(layer, x, y)] = [shape, fl, sset, st, pal, edges]
    if flags & 2:
        for _ in range(r.u(10)):
            x, y = r.u(5), r.u(5)
            b = r.raw(12)
            t = tiles.get((19, x, y))
            if strict:
                need(t is not None, "filth for a tile that does not exist")
            if t is not None:
                unpack_dust(b, t[5])
    for (layer, x, y), t in tiles.items():
        k = (layer, xo + x, yo + y)
        if strict:
            need(k not in out["tiles"], f"tile {k} stored twice")
        e = canon_edges(t[5])
        if layer != 19 or not any(q[6] for q in e):
            e = strip_filth(e)
        out["tiles"][k] = (t[0], t[1], t[2], t[3], t[4], e)
    if flags & 8:
        for _ in range(r.u(16)):
            i = r.s(32)
            if i < 0:
                need(not strict, f"prop with ID {i}")
                continue
            layer, sub = r.u(8), r.u(8)
            if ver > 6 or dustmod:
                v = []
                for _ in range(2):
                    sg, n, sc = r.u(1), r.u(27), r.u(4)
                    v.append((-1.0 if sg else 1.0) * n)
                    v.append(sc & 7 ^ 4)
                x, y, lg = v[0], v[2], v[1] * 7 + v[3]
            else:
                x, y, lg = r_fixed(r, 28, 4), r_fixed(r, 28, 4), 32
            rot, fx, fy, ps, pg, pi, pal = r.u(16), r.u(1), r.u(1), r.u(8), r.u(12), r.u(12), r.u(8)
            if strict:
                need(i not in out["props"], f"prop ID {i} stored twice")
                need(placed(x, y, base, (sx, sy) if mult == 256 else None), f"prop {i} at ({x}, {y}) in segment ({sx}, {sy}) of region {base}")
            out["props"][i] = (layer, x, y, sub, rot, bool(fx), bool(fy), lg, ps, pg, pi, pal)
    content_end = r.p
    if flags & 4:
        ext = False
        for _ in range(r.u(16)):
            i = r.s(32)
            if i < 0:
                need(not strict, f"entity with ID {i}")
                continue
            name = r_str6(r)
            ext = ext or (name == "entity" and ver > 7)
            x, y = r_fixed(r, 32, 8), r_fixed(r, 32, 8)
            rot, layer, fx, fy, vis = r.u(16), r.u(8), r.u(1), r.u(1), r.u(1)
            ents.append([i, x, y, name, r_vmap(r), rot, layer, not fx, not fy, bool(vis)])
        content_end = r.p
        if ver > 7 and (ext or strict):
            t = BitR(r.d, start + size - 4, start + size)
            back = t.u(32)
            n = BitR(r.d, 0, start + size - 4)
            n.p = (start + size - 4) * 8 - back
            if strict:
                need(n.p == content_end, f"extended names said to start at bit {n.p}, entities end at bit {content_end}")
            for e in ents:
                if e[3] == "entity":
                    e[3] = r_str6(n)
            content_end = n.p + 32
        for e in ents:
            if strict:
                need(e[0] not in out["entities"], f"entity ID {e[0]} stored twice")
                need(placed(e[1], e[2], base, (sx, sy)), f"entity {e[0]} at ({e[1]}, {e[2]}) in segment ({sx}, {sy}) of region {base}")
            out["entities"][e[0]] = tuple([e[1], e[2], e[3]] + e[4:])
    if strict:
        need((content_end + 7) // 8 <= start + size <= (content_end + 7) // 8 + 1, f"segment of {size} bytes, content ends at {content_end / 8 - start}")
        tot = totals([(l, t[2], t[3], t[5]) for (l, _, _), t in tiles.items()], [e[3] for e in ents])
        for n, a, b in zip(("dust", "enemy", "surface", "dustblock"), stored, tot):
            if a is not None:
                need(a == b & 0xFFFF, f"{n} total {a}, contents have {b}")
    r.p = (start + size) * 8
    return sx, sy


def dec_level(data, start=0, strict=False):
    """Returns (canonical level, info)."""
    r = BitR(data, start)
    need(r.raw(6) == b"DF_LVL", "wrong header")
    ver = r.u(16)
    need(ver > 42, f"level version {ver}")
    size, nreg = r.u(32), r.u(32)
    need(start + size <= len(data), f"file size field {size}, only {len(data) - start} bytes there")
    r.end = (start + size) * 8
    need(r.raw(6) == b"DF_MTD", "wrong metadata header")
    mver, unused, uid = r.u(16), r.u(32), r.u(32)
    unused = (unused, r.u(32), r.u(32), r.u(32))
    if strict:
        need(ver == 44 and mver == 4, f"level version {ver}, metadata version {mver}")
        need(not any(unused), f"unused metadata fields hold {unused}")
    sshot = b""
    if ver > 43:
        sshot = r.raw(r.u(32))
    out = {"tiles": {}, "props": {}, "entities": {}, "bd_tiles": {}, "bd_props": {}, "vars": r_vmap(r), "sshot": sshot}
    lt = dict(out["vars"]).get("level_type", ("i", 0))[1]
    need(nreg * 32 <= r.end - r.p, f"{nreg} regions cannot fit")
    offs = [r.u(32) for _ in range(nreg)]
    r.align()
    base = r.p // 8
    order = []
    regions = []
    for i in range(nreg):
        here = r.p // 8
        if strict:
            need(offs[i] == here - base, f"directory says region {i} is at {offs[i]}, it is at {here - base}")
        rlen, ulen = r.u(32), r.u(32)
        x, y = r.s(16), r.s(16)
        rver = r.u(16)
        nseg, bd = r.u(16), r.u(8)
        if strict:
            need(rver == 14 and bd in (0, 1), f"region {i}: version {rver}, backdrop flag {bd}")
        need(here + rlen <= start + size and rlen >= 17, f"region {i} of {rlen} bytes exceeds the file")
        z = zlib.decompressobj()
        try:
            raw = z.decompress(r.raw(rlen - 17))
        except zlib.error as e:
            raise FormatError(f"region {i}: {e}") from e
        need(z.eof, f"region {i}: compressed data incomplete")
        if strict:
            need(not z.unused_data, f"region {i}: data after the compressed block")
            need(ulen == len(raw), f"region {i}: uncompressed size field {ulen}, data {len(raw)}")
            need((x, y) not in order, f"region {(x, y)} stored twice")
        order.append((x, y))
        s = BitR(raw)
        seen = set()
        for _ in range(nseg):
            s.align()
            q = dec_segment(s, len(raw), out, (x, y), 256, lt == 6, strict)
            if strict:
                need(q not in seen, f"segment {q} stored twice in region {i}")
            seen.add(q)
        if bd:
            s.align()
            sub = {"tiles": out["bd_tiles"], "props": out["bd_props"], "entities": {}}
            dec_segment(s, len(raw), sub, (x, y), 16, False, strict)
        if strict:
            need(s.p == len(raw) * 8, f"region {i}: {len(raw) - s.p // 8} bytes left after its segments")
        regions.append((x, y, here, rlen, nseg, bool(bd)))
    if strict:
        need(r.p == (start + size) * 8, f"file size field {size}, content ends at {r.p // 8 - start}")
        need(order == sorted(order, key=region_key), f"regions in the order {order[:6]}")
        ids = list(out["props"]) + list(out["entities"]) + list(out["bd_props"])
        need(uid > max(ids, default=0), f"ID high-water mark {uid}, largest ID {max(ids, default=0)}")
    return out, {"version": ver, "size": size, "uid": uid, "base": base, "regions": regions, "end": start + size, "offs": offs}


# ----------------------------------------------------------------------- replays
def enc_replay_block(s, opt=None):
    opt = opt or {}
    rng = random.Random(opt["split"]) if "split" in opt else None

    def piece(n, most):
        return min(n, most) if rng is None else rng.randint(1 if most == 255 else 0, min(n, most))

    w = BitW()
    for ch, intents in s["players"]:
        m = dict((i, runs) for i, runs in intents)
        for i, (bits, v) in enumerate(INTENTS):
            if v > s["version"]:
                break
            b = BitW()
            runs = [[intent_default(i), 0]] + [list(x) for x in m.get(i, ())]
            # First run may be empty; later ones store count - 1.
            out = []
            first = True
            for val, n in runs:
                if n == 0 and not first:
                    continue
                if first:
                    k = piece(n, 254)
                    out.append((None, k))
                    n -= k
                    first = False
                while n > 0:
                    k = piece(n, 255)
                    out.append((val, k - 1))
                    n -= k
            for val, cnt in out:
                if val is not None:
                    b.u(bits, val)
                b.u(8, cnt)
            b.u(bits, intent_default(i) if "last" not in opt else opt["last"] % 3)
            b.u(8, 255)
            blob = b.bytes() + bytes([0xA5]) * opt.get("ipad", 0)
            w.u(32, len(blob))
            w.raw(blob)
    inp = w.bytes()
    w = BitW()
    w.u(32, len(inp))
    w.raw(inp)
    w.u(32, len(s["entities"]))
    for n, (uid, frames) in enumerate(s["entities"]):
        w.u(32, uid)
        w.u(32, (n + opt.get("ruid", 0)) & 0xFFFFFFFF)
        w.u(32, len(frames))
        for f in frames:
            for v in f:
                w.u(32, v)
    return w.bytes()


def enc_replay(s, zlevel=6, opt=None):
    opt = opt or {}
    w = BitW()
    if s["username"] or s.get("force"):
        w.raw(b"DF_RPL2")
        b = xbytes(s["username"])
        w.u(16, len(b))
        w.raw(b)
    w.raw(b"DF_RPL" + bytes([48 + s["version"]]))
    blk = enc_replay_block(s, opt)
    w.u(16, opt["np"] if "np" in opt and s["version"] == 1 else len(s["players"]))
    w.u(32, len(blk))
    w.u(32, s["frames"])
    for ch, _ in s["players"]:
        w.u(8, ch)
    lv = xbytes(s["level"])
    w.u(8, len(lv))
    w.raw(lv)
    head = w.bytes()
    return head + zlib.compress(blk, zlevel), len(head)


def dec_replay(data, start=0, strict=True):
    """Returns (canonical replay, end position)."""
    r = BitR(data, start)
    need(r.raw(6) == b"DF_RPL", "wrong header")
    ver = r.u(8) - 48
    user = b""
    if ver == 2:
        user = r.raw(r.u(16))
        need(r.raw(6) == b"DF_RPL", "wrong header after the user name")
        ver = r.u(8) - 48
    need(ver in (1, 3, 4), f"replay version {ver}")
    np = r.u(16)
    if ver < 3:
        np = 1
    ulen, frames = r.u(32), r.u(32)
    chars = [r.u(8) for _ in range(np)]
    level = r.raw(r.u(8))
    z = zlib.decompressobj()
    try:
        raw = z.decompress(bytes(data[r.p // 8 :]))
    except zlib.error as e:
        raise FormatError(str(e)) from e
    need(z.eof, "compressed block incomplete")
    end = len(data) - len(z.unused_data)
    if strict:
        need(ulen == len(raw), f"uncompressed size field {ulen}, data {len(raw)}")
    b = BitR(raw)
    ilen = b.u(32)
    players = []
    for ch in chars:
        vals_all = []
        for i, (bits, v) in enumerate(INTENTS):
            if v > ver:
                break
            n = b.u(32)
            nxt = b.p + n * 8
            vals = []
            state = intent_default(i)
            first = True
            while True:
                c = b.u(8)
                if c == 255:
                    break
                vals.extend([state] * (c if first else c + 1))
                first = False
                state = b.u(bits)
            if strict:
                need((b.p + 7) // 8 * 8 == nxt, f"intent {i}: length field {n}")
            b.p = nxt
            vals_all.append(trim(vals, intent_default(i)))
        players.append((ch, tuple(vals_all)))
    if strict:
        need(b.p == 32 + ilen * 8, f"input section length field {ilen}")
    ents = {}
    for _ in range(b.u(32)):
        uid, _, n = b.u(32), b.u(32), b.u(32)
        ents[uid] = tuple((b.u(32), b.s(32), b.s(32), b.s(32), b.s(32)) for _ in range(n))
    if strict:
        need((b.p + 7) // 8 == len(raw), "data after the entity section")
    return {"version": ver, "username": user, "level": level, "frames": frames, "players": tuple(players), "entities": ents}, end
