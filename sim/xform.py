"""Independent geometric model of what the transform tool has to do to a level.

Works on canonical levels (spec.canon_level / refcodec.dec_level) with exact
arithmetic; shares no code with dustmaker.
"""
from fractions import Fraction as F

# vertices in half tiles: top-left, top-right, bottom-right, bottom-left
VERTS = (
    ((0, 0), (2, 0), (2, 2), (0, 2)),
    ((0, 0), (2, 1), (2, 2), (0, 2)), ((0, 1), (2, 2), (2, 2), (0, 2)), ((0, 0), (2, 0), (1, 2), (0, 2)), ((0, 0), (1, 0), (0, 2), (0, 2)),
    ((0, 0), (2, 0), (2, 2), (0, 1)), ((0, 0), (2, 0), (2, 1), (0, 0)), ((1, 0), (2, 0), (2, 2), (0, 2)), ((2, 0), (2, 0), (2, 2), (1, 2)),
    ((0, 1), (2, 0), (2, 2), (0, 2)), ((0, 2), (2, 1), (2, 2), (0, 2)), ((0, 0), (2, 0), (2, 2), (1, 2)), ((1, 0), (2, 0), (2, 2), (2, 2)),
    ((0, 0), (2, 0), (2, 1), (0, 2)), ((0, 0), (2, 0), (2, 0), (0, 1)), ((0, 0), (1, 0), (2, 2), (0, 2)), ((0, 0), (0, 0), (1, 2), (0, 2)),
    ((0, 0), (2, 2), (2, 2), (0, 2)), ((0, 0), (2, 0), (2, 0), (0, 2)), ((0, 0), (2, 0), (2, 2), (0, 0)), ((0, 2), (2, 0), (2, 2), (0, 2)),
)
CW = (0, 2, 3, 1)  # side (top bottom left right) -> index in clockwise order
HITTABLE = set(
    "enemy_tutorial_square enemy_tutorial_hexagon enemy_slime_beast enemy_slime_barrel enemy_spring_ball enemy_slime_ball enemy_trash_tire enemy_trash_beast "
    "enemy_trash_can enemy_trash_ball enemy_bear enemy_stoneboss enemy_stonebro enemy_porcupine enemy_wolf enemy_critter enemy_flag enemy_scrolls enemy_treasure "
    "enemy_chest_treasure enemy_chest_scrolls enemy_butler enemy_maid enemy_knight enemy_gargoyle_big enemy_gargoyle_small enemy_book enemy_hawk enemy_key enemy_door "
    "hittable_apple dust_man dust_girl dust_kid dust_worth dust_wraith leaf_sprite trash_king slime_boss".split()
)
ZERO = (False, False, False, False, 0, 0, 0, False, False, False, 0, 0)


def side_ends(shape, side):
    """End points (clockwise) of a side of a shape."""
    i = CW[side]
    return VERTS[shape][i], VERTS[shape][(i + 1) % 4]


def side_exists(shape, side):
    a, b = side_ends(shape, side)
    return abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1


class T:
    """upscale by f, rotate k times clockwise, flip vertically, flip horizontally, shift."""

    def __init__(self, t):
        self.f = max(1, int(t.get("upscale", 1)))
        self.k = t.get("rotate", 0) % 4
        self.v = bool(t.get("vflip"))
        self.h = bool(t.get("hflip"))
        self.tx = t.get("tx") or 0
        self.ty = t.get("ty") or 0

    @property
    def flipped(self):
        return self.v != self.h

    def lin(self, x, y):
        x, y = x * self.f, y * self.f
        for _ in range(self.k):
            x, y = -y, x
        if self.v:
            y = -y
        if self.h:
            x = -x
        return x, y

    def pt(self, x, y):
        x, y = self.lin(x, y)
        return x + self.tx, y + self.ty

    def rot(self, r, flip_y):
        r = r + 0x4000 * self.k
        if self.v:
            r, flip_y = 0x8000 - r, not flip_y
        if self.h:
            r, flip_y = -r, not flip_y
        return r & 0xFFFF, flip_y


def flip_edge(e):
    return (e[0], e[1], e[3], e[2], -e[5], -e[4], e[6], e[7], e[9], e[8], -e[11], -e[10])


def clip(poly, x0, y0, x1, y1):
    """Convex polygon against a box (exact)."""
    def half(ps, inside, cut):
        out = []
        for i, p in enumerate(ps):
            q = ps[i - 1]
            if inside(p):
                if not inside(q):
                    out.append(cut(q, p))
                out.append(p)
            elif inside(q):
                out.append(cut(q, p))
        return out

    def cx(c):
        return lambda a, b: (F(c), a[1] + (b[1] - a[1]) * (F(c) - a[0]) / (b[0] - a[0]))

    def cy(c):
        return lambda a, b: (a[0] + (b[0] - a[0]) * (F(c) - a[1]) / (b[1] - a[1]), F(c))

    poly = half(poly, lambda p: p[0] >= x0, cx(x0))
    poly = half(poly, lambda p: p[0] <= x1, cx(x1)) if poly else poly
    poly = half(poly, lambda p: p[1] >= y0, cy(y0)) if poly else poly
    poly = half(poly, lambda p: p[1] <= y1, cy(y1)) if poly else poly
    return poly


def area2(poly):
    return sum(poly[i - 1][0] * poly[i][1] - poly[i][0] * poly[i - 1][1] for i in range(len(poly)))


def norm(poly):
    """Set of the real corners of a convex polygon."""
    ps = []
    for p in poly:
        if not ps or ps[-1] != p:
            ps.append(p)
    if len(ps) > 1 and ps[0] == ps[-1]:
        ps.pop()
    out = set()
    n = len(ps)
    for i in range(n):
        a, b, c = ps[i - 1], ps[i], ps[(i + 1) % n]
        if (b[0] - a[0]) * (c[1] - b[1]) != (b[1] - a[1]) * (c[0] - b[0]):
            out.add(b)
    return frozenset(out)


BY_SHAPE = {norm([(F(x), F(y)) for x, y in v]): i for i, v in enumerate(VERTS)}


def on_segment(p, a, b):
    if (b[0] - a[0]) * (p[1] - a[1]) != (b[1] - a[1]) * (p[0] - a[0]):
        return False
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def nearest(v):
    """Nearest integer, None when two are equally near."""
    v = F(v)
    if v.denominator == 2:
        return None
    return round(v)


def tiles_of(key, tile, t):
    """-> {(layer, x, y): (shape, flags or None, sset, stile, palette, edges)}"""
    layer, x, y = key
    shape, flags, sset, stile, pal, edges = tile
    # in half tiles; tiles go to the nearest place of the grid
    sx, sy = nearest(F(t.tx) / 48), nearest(F(t.ty) / 48)
    if sx is None or sy is None:
        return None

    def P(v):
        px, py = t.lin(F(2 * x + v[0]), F(2 * y + v[1]))
        return px + 2 * sx, py + 2 * sy

    poly = [P(v) for v in VERTS[shape]]
    sides = []
    for s in range(4):
        a, b = side_ends(shape, s)
        if a == b:
            continue
        a, b = P(a), P(b)
        e = edges[s]
        if t.flipped:
            a, b, e = b, a, flip_edge(e)
        sides.append((a, b, e if side_exists(shape, s) else None))
    if t.flipped:
        poly = poly[::-1]
    corners = [P(v) for v in ((0, 0), (2, 0), (2, 2), (0, 2))]
    ox, oy = min(c[0] for c in corners), min(c[1] for c in corners)
    out = {}
    for dx in range(t.f):
        for dy in range(t.f):
            bx, by = ox + 2 * dx, oy + 2 * dy
            cell = clip(poly, bx, by, bx + 2, by + 2)
            if len(cell) < 3 or area2(cell) == 0:
                continue
            nshape = BY_SHAPE.get(norm([(px - bx, py - by) for px, py in cell]))
            if nshape is None:
                return None
            nedges = []
            for s in range(4):
                a, b = side_ends(nshape, s)
                e = ZERO
                if a != b and side_exists(nshape, s):
                    a, b = (a[0] + bx, a[1] + by), (b[0] + bx, b[1] + by)
                    for sa, sb, se in sides:
                        if on_segment(a, sa, sb) and on_segment(b, sa, sb):
                            if se is None:
                                e = None  # grown out of a side without an edge: not judged
                                break
                            e = list(se)
                            if a != sa:
                                e[2], e[4], e[8], e[10] = False, 0, False, 0
                            if b != sb:
                                e[3], e[5], e[9], e[11] = False, 0, False, 0
                            e = tuple(e)
                nedges.append(e)
            cx, cy = bx / 2, by / 2
            if cx.denominator != 1 or cy.denominator != 1:
                return None
            out[(layer, int(cx), int(cy))] = (nshape, flags if t.f == 1 else None, sset, stile, pal, tuple(nedges))
    return out


def persisted(layer, edges):
    if layer != 19 or not any(e and e[6] for e in edges):
        return tuple(e and e[:6] + (0, False, False, False, 0, 0) for e in edges)
    return edges


def diff_tiles(src, got, t, what, stored=True):
    want = {}
    for key, tile in src.items():
        r = tiles_of(key, tile, t)
        if r is None:
            return None  # not decidable on this grid
        want.update(r)
    if set(want) != set(got):
        miss = sorted(set(want) - set(got))[:3]
        return f"{what}: missing at {miss}, unexpected at {sorted(set(got) - set(want))[:3]} ({len(want)} expected, {len(got)} found)"
    for k, w in want.items():
        g = got[k]
        if g[0] != w[0]:
            return f"{what}{k}: shape {g[0]} instead of {w[0]}"
        if g[2:5] != w[2:5]:
            return f"{what}{k}: sprite {g[2:5]} instead of {w[2:5]}"
        if w[1] is not None and g[1] != w[1]:
            return f"{what}{k}: flags {g[1]} instead of {w[1]}"
        we = persisted(k[0], w[5]) if stored else w[5]
        for s in range(4):
            if side_exists(w[0], s) and we[s] is not None and we[s] != g[5][s]:
                return f"{what}{k}: shape {g[0]} side {s}: edge data {g[5][s]} instead of {we[s]}"
    return None


def diff_props(src, got, t, what):
    if set(src) != set(got):
        return f"{what}: IDs {sorted(got)[:5]} instead of {sorted(src)[:5]}"
    for i, p in src.items():
        g = got[i]
        x, y = t.pt(p[1], p[2])
        r, fy = t.rot(p[4], p[6])
        whole = F(x).denominator == 1 and F(y).denominator == 1
        if abs(g[1] - x) >= 1 or abs(g[2] - y) >= 1 or (whole and (g[1], g[2]) != (x, y)):  # props are stored in whole pixels
            return f"{what}[{i}]: at {g[1:3]} instead of {(x, y)}"
        if (g[4], g[6]) != (r, fy):
            return f"{what}[{i}]: rotation, flip {(g[4], g[6])} instead of {(r, fy)}"
        same = [0, 3, 5, 8, 9, 10, 11] + ([7] if t.f == 1 else [])
        for j in same:
            if g[j] != p[j]:
                return f"{what}[{i}]: field {j} is {g[j]!r}, was {p[j]!r}"
    return None


def expect_vars(etype, vars_, t):
    """[(key, expected canonical, default that counts as absent)] of variables that change."""
    d = dict(vars_)
    out = []

    def num(key, ty, default, f):
        v = d.get(key, (ty, default))
        out.append((key, (ty, f(v[1])), (ty, default)))

    if etype in HITTABLE:
        num("dm_scale", "f", 1.0, lambda v: v * t.f)
    if etype == "enemy_key":
        lx, ly = d.get("lastKnowX", ("f", 0.0))[1], d.get("lastKnowY", ("f", 0.0))[1]
        nx, ny = t.pt(lx, ly)
        out.append(("lastKnowX", ("f", nx), ("f", 0.0)))
        out.append(("lastKnowY", ("f", ny), ("f", 0.0)))
    if etype in ("check_point", "level_end_prox"):
        a = d.get("trigger_area", ("a", "v", ()))
        out.append(("trigger_area", ("a", "v", tuple(("v", t.lin(*e[1])) for e in a[2])), ("a", "v", ())))
    if etype == "AI_controller":
        a = d.get("nodes", ("a", "v", ()))
        out.append(("nodes", ("a", "v", tuple(("v", t.pt(*e[1])) for e in a[2])), ("a", "v", ())))
    if etype in ("vsim_user", "z_vsim_user"):
        a = d.get("spots", ("a", "v", ()))
        out.append(("spots", ("a", "v", tuple(("v", t.pt(*e[1])) for e in a[2])), ("a", "v", ())))
    if etype == "kill_box":
        w, h = d.get("width", ("i", 0))[1], d.get("height", ("i", 0))[1]
        nw, nh = t.lin(w, h)
        out.append(("width", ("i", abs(nw)), ("i", 0)))
        out.append(("height", ("i", abs(nh)), ("i", 0)))
    if etype == "camera_node":
        num("zoom_h", "i", 1080, lambda v: v * t.f)
        num("width", "i", 520, lambda v: v * t.f)
    return out


def diff_changed_vars(old, new, changes, what):
    o, n = dict(old), dict(new)
    keys = set()
    for k, want, absent in changes:
        keys.add(k)
        g = n.get(k, absent)
        if g != want:
            return f"{what}.{k}: {str(g)[:120]} instead of {str(want)[:120]}"
    rest_o = [(k, v) for k, v in old if k not in keys]
    rest_n = [(k, v) for k, v in new if k not in keys]
    if rest_o != rest_n:
        return f"{what}: other variables {str(rest_n)[:120]} instead of {str(rest_o)[:120]}"
    return None


def diff_entities(src, got, t):
    if set(src) != set(got):
        return f"entities: IDs {sorted(got)[:5]} instead of {sorted(src)[:5]}"
    for i, e in src.items():
        g = got[i]
        x, y = t.pt(e[0], e[1])
        r, fy = t.rot(e[4], e[7])
        if (g[0], g[1]) != (x, y):
            return f"entities[{i}]: at {g[0:2]} instead of {(x, y)}"
        if (g[4], g[7]) != (r, fy):
            return f"entities[{i}]: rotation, flip {(g[4], g[7])} instead of {(r, fy)}"
        for j in (2, 5, 6, 8):
            if g[j] != e[j]:
                return f"entities[{i}]: field {j} is {g[j]!r}, was {e[j]!r}"
        d = diff_changed_vars(e[3], g[3], expect_vars(e[2], e[3], t), f"entities[{i}] ({e[2]})")
        if d:
            return d
    return None


def diff_level(src, got, tdict, stored=True):
    """First way in which `got` is not `src` transformed, or None."""
    t = tdict if isinstance(tdict, T) else T(tdict)
    d = diff_tiles(src["tiles"], got["tiles"], t, "tiles", stored) or diff_props(src["props"], got["props"], t, "props") or diff_entities(src["entities"], got["entities"], t)
    if d:
        return d
    # the backdrop is transformed alike; its tiles keep their size
    if t.f == 1:
        d = diff_tiles(src["bd_tiles"], got["bd_tiles"], t, "backdrop tiles", stored)
        if d:
            return d
    d = diff_props(src["bd_props"], got["bd_props"], t, "backdrop props")
    if d:
        return d
    if src["sshot"] != got["sshot"]:
        return "thumbnail changed"
    o = dict(src["vars"])
    ch = []
    for p in range(1, 5):
        x, y = o.get(f"p{p}_x", ("i", 0))[1], o.get(f"p{p}_y", ("i", 0))[1]
        nx, ny = t.pt(x, y)
        nx, ny = nearest(nx), nearest(ny)
        if nx is None or ny is None:
            return None
        ch.append((f"p{p}_x", ("i", nx), ("i", 0)))
        ch.append((f"p{p}_y", ("i", ny), ("i", 0)))
    lt = o.get("level_type", ("i", 0))
    ch.append(("level_type", ("i", 6) if stored and t.f > 1 and lt == ("i", 0) else lt, ("i", 0)))
    return diff_changed_vars(src["vars"], got["vars"], ch, "level variables")
