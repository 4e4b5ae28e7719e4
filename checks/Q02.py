import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import *
from qmap import brush_polys

HULLS = {'q1': Q1HULLS, 'hl': HLHULLS, 'h2': H2HULLS}
MARGIN = .3


def minkowski(b, hull):
    """planes {x: n.x <= d} of brush (+) growth box: the points where the player's box would touch the brush"""
    polys = brush_polys(b.pl, 16384)
    verts = np.array([p for q in polys for p in q])
    mn, mx = np.array(hull[0], float), np.array(hull[1], float)
    axes = [n for n, _ in b.pl] + list(np.eye(3)) + list(-np.eye(3))
    for q in polys:
        for i in range(len(q)):
            e = q[(i + 1) % len(q)] - q[i]
            l = np.linalg.norm(e)
            if l < .05:
                continue
            for a in np.eye(3):
                c = np.cross(e / l, a)
                k = np.linalg.norm(c)
                if k > 1e-3:
                    axes += [c / k, -c / k]
    axes = np.unique(np.round(np.array(axes), 9), axis=0)
    d = (axes @ verts.T).max(1) + np.where(axes > 0, axes * mx, axes * mn).sum(1)
    return axes, d


def near(P, planes, margin):
    A, d = planes
    return ((P @ A.T - d) < margin).all(1)


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmts = [f for f in GAMES if GAMES[f][0] != 'q2']
    fmt = fmts[c % len(fmts)]
    game, args = GAMES[fmt]
    kind = 'convex' if r.random() < .4 else 'grid'
    w = gen(r, game, kind, leak=.08, models=r.random() < .6)
    if not w.placed:
        return
    args = args + options(r)
    nofill = r.random() < .1
    args = args + (['-nofill'] if nofill else [])
    q = qbsp(d, w, 'h%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp', '.pts')]
    what = describe(w, args, fmt)
    if tool_failed(ctx, q, fmt, args):
        return cleanup(q)
    b = Bsp(q.base + '.bsp', fmt)
    hulls = HULLS[game]
    leak0 = os.path.exists(q.base + '.pts')
    for h in range(1, len(hulls)):
        if w.axial:
            cs, bits = w.grid(hull=hulls[h])
            F = Fill(w, cs, bits, nofill)
            want = np.where(bits & S != 0, -2, -1)
            either = ~F.r1 if F.filled else np.zeros(bits.shape, bool)
            for pts in cell_points(cs, r, 2):
                got = b.hull_at(pts, 0, h).reshape(bits.shape)
                bad = bad_cells(w, got, want, either)
                ctx.ok(bits.size)
                if bad.any():
                    i = tuple(int(x) for x in np.argwhere(bad)[0])
                    ctx.violation('hull', '%s: hull %d at %s is %d, brushes grown by the box %s say %d (filled %s leak %s/%s occ %s reached %s); %d of %d cells wrong' % (
                        what, h, pts.reshape(bits.shape + (3,))[i], got[i], hulls[h], want[i], F.filled, F.leak, leak0, F.occ, F.r1[i], bad.sum(), bad.size), files)
                    return cleanup(q)
            ctx.stat('cells', bits.size)
            ctx.ok(0, key=[fmt, 'grid', h, F.filled, int(bits.size).bit_length(), int(F.r1.sum()).bit_length()])
        else:
            br = [x for x in w.brushes if x.cls in ('clip', 'super') or w.bits(x.cls) & (S | SKY | DS | DW | WIN)]
            rs = np.random.RandomState(r.getrandbits(31))
            lo = np.array(w.off) - np.array(w.half) - 20.0
            hi = np.array(w.off) + np.array(w.half) + 20.0
            pts = rs.uniform(lo, hi, (3000, 3))
            M = [minkowski(x, hulls[h]) for x in br]
            # half of the samples close to the grown sides
            k = rs.randint(0, len(br), 3000)
            near_pts = []
            for i in range(0, 3000, 6):
                A, dd = M[k[i]]
                j = rs.randint(len(A))
                p = pts[i:i + 6].copy()
                e = p @ A[j] - dd[j]
                p -= np.outer(e - rs.choice([-1, 1], 6) * rs.uniform(MARGIN, 3, 6), A[j])
                near_pts.append(p)
            pts = np.concatenate([pts] + near_pts)
            sol, touch = np.zeros(len(pts), bool), np.zeros(len(pts), bool)
            for m in M:
                sol |= near(pts, m, -MARGIN)
                touch |= near(pts, m, MARGIN)
            got = b.hull_at(pts, 0, h)
            ok = np.where(sol, got == -2, np.where(touch, True, (got == -1) | (got == -2)))
            if nofill:
                reach = np.ones(len(pts), bool)
            else:
                class G:
                    pass
                gs = []
                for A, dd in M:
                    g = G()
                    g.pl = list(zip(A, dd))
                    gs.append(g)
                starts = [[float(x) for x in e.get('origin').split()] for e in w.points]
                starts = [s for s in starts if not any(near(np.array([s]), m, 4)[0] for m in M)]
                reach = ray_reach(r, starts, pts, gs, rounds=2, fan=6)
            ok &= ~(reach & ~touch) | (got == -1)
            bad = ~ok
            ctx.ok(len(pts))
            ctx.stat('points', len(pts))
            ctx.stat('points_open', int((reach & ~touch).sum()))
            ctx.ok(0, key=[fmt, 'convex', h, nofill, leak0, len(br)])
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                ctx.violation('hull-convex', '%s: hull %d at %s is %d but a box there %s (reached %s); %d of %d points wrong' % (
                    what, h, pts[i], got[i], 'overlaps a solid brush' if sol[i] else 'touches nothing', reach[i], bad.sum(), len(pts)), files)
                return cleanup(q)
    # brush models: solid where the box would touch the model's brushes
    ents = [e for e in b.entities() if e.get('model').startswith('*')]
    for e, m in zip(ents, [e for e in w.entlist if getattr(e, 'wb', None)]):
        k = int(e.get('model')[1:])
        for h in range(1, len(hulls)):
            mn, mx = hulls[h]
            bx = [([x.lo[i] + mn[i] for i in range(3)], [x.hi[i] + mx[i] for i in range(3)]) for x in m.wb]
            cs = [np.array(sorted({v for l, u in bx for v in (l[i], u[i])} | {min(l[i] for l, u in bx) - 40, max(u[i] for l, u in bx) + 40})) for i in range(3)]
            for pts in cell_points(cs, r, 1):
                want = np.full(len(pts), -1)
                for l, u in bx:
                    want[((pts > l) & (pts < u)).all(1)] = -2
                got = b.hull_at(pts, k, h)
                ctx.ok(len(pts))
                if (got != want).any():
                    i = int(np.nonzero(got != want)[0][0])
                    ctx.violation('model-hull', '%s: %s model %d hull %d at %s is %d, brushes say %d' % (what, m.get('classname'), k, h, pts[i], got[i], want[i]), files)
                    return cleanup(q)
            ctx.stat('model_hulls', 1)
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp'])
    ctx.rule = 'distinct = (format, kind of world, hull, filled, size) of clipping hulls whose every cell (or thousands of sampled points) was looked up'
    ctx.assumptions = ['box sizes are the published hull sizes of Quake, Half-Life and Hexen II', 'sloped worlds are judged at least %g units from each grown brush side' % MARGIN]
    total = ctx.n(420, 8000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
