"""Random convex brushes and random worlds."""
import math
import numpy as np
from qmap import Side, Ent, brush_polys, poly_area


def plane_points(n, d, rng=None, poly=None):
    """three points (clockwise seen from outside, as map editors write them) spanning the plane n.x=d"""
    a = np.eye(3)[int(np.argmin(np.abs(n)))]
    u = np.cross(n, a)
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    c = n * d
    if poly is not None and len(poly):
        c = sum(poly) / len(poly)
        c = c - n * (float(n @ c) - d)
    l = 64.0
    # normal = (p0-p1) x (p2-p1)
    return [tuple(c), tuple(c + v * l), tuple(c + u * l)]


def box_sides(lo, hi, tex, info=None, texes=None, **kw):
    """axial box with exact integer points"""
    x0, y0, z0 = lo
    x1, y1, z1 = hi
    P = [((x1, y0, z0), (x1, y1, z0), (x1, y0, z1)),
         ((x0, y0, z0), (x0, y0, z1), (x0, y1, z0)),
         ((x0, y1, z0), (x0, y1, z1), (x1, y1, z0)),
         ((x0, y0, z0), (x1, y0, z0), (x0, y0, z1)),
         ((x0, y0, z1), (x1, y0, z1), (x0, y1, z1)),
         ((x0, y0, z0), (x0, y1, z0), (x1, y0, z0))]
    want = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
    out = []
    for i, (p, w) in enumerate(zip(P, want)):
        a, b, c = (np.array(q, float) for q in p)
        n = np.cross(a - b, c - b)
        if n @ np.array(w) < 0:
            p = (p[0], p[2], p[1])
        out.append(Side([tuple(q) for q in p], (texes or {}).get(i, tex), info=info, **kw))
    return out


def convex_sides(rng, lo, hi, tex, nextra, info=None, snap=None):
    """axial box cut by random planes through it; every side keeps a sizeable polygon"""
    lo, hi = np.array(lo, float), np.array(hi, float)
    planes = [(s.plane()[0], s.plane()[1]) for s in box_sides(lo, hi, tex)]
    sides = box_sides(lo, hi, tex, info)
    c = (lo + hi) / 2
    for _ in range(nextra):
        for _try in range(20):
            n = np.array([rng.uniform(-1, 1) for _ in range(3)])
            if rng.random() < .4:
                n = np.array([rng.choice([-1, 0, 1]) for _ in range(3)], float)
            if np.linalg.norm(n) < .3:
                continue
            # integer points on the plane
            n /= np.linalg.norm(n)
            h = (hi - lo) / 2
            d = float(n @ c) + rng.uniform(.35, .8) * float(np.abs(n) @ h)
            pts = plane_points(n, d, rng)
            ctr = c + n * (d - float(n @ c))
            off = np.array(pts[0]) - ctr
            ip = [tuple(float(round(x)) for x in (np.array(p) - off)) for p in pts]
            s = Side(ip, tex, info=info)
            try:
                n2, d2 = s.plane()
            except Exception:
                continue
            if not np.all(np.isfinite(n2)) or n2 @ n < .98:
                continue
            if any(float(n2 @ m) > .999 for m, _ in planes):
                continue
            cand = planes + [(n2, d2)]
            polys = brush_polys(cand, 16384)
            if all(len(p) >= 3 and poly_area(p) > 40 for p in polys):
                planes, sides = cand, sides + [s]
                break
    return sides
