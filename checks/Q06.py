import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import *


def walk(b, p, q):
    """leafs along the segment: [(t0, t1, leaf)], by cutting it at every node plane"""
    out = []
    stack = [(b.head(0), 0.0, 1.0)]
    while stack:
        n, t0, t1 = stack.pop()
        if n < 0:
            out.append((t0, t1, -1 - n))
            continue
        pl = b.nplane[n]
        a = p + (q - p) * t0
        c = p + (q - p) * t1
        da = float(a @ b.pn[pl]) - b.pd[pl]
        dc = float(c @ b.pn[pl]) - b.pd[pl]
        if da >= 0 and dc >= 0:
            stack.append((int(b.kids[n, 0]), t0, t1))
        elif da < 0 and dc < 0:
            stack.append((int(b.kids[n, 1]), t0, t1))
        else:
            t = t0 + (t1 - t0) * da / (da - dc)
            f, s = (0, 1) if da >= 0 else (1, 0)
            stack.append((int(b.kids[n, s]), t, t1))
            stack.append((int(b.kids[n, f]), t0, t))
    return out


class Portals:
    def __init__(self, por):
        m = max(len(p) for p, _ in por)
        self.ab = np.array([ab for _, ab in por])
        self.n, self.d, self.en, self.ed, self.bad = [], [], [], [], None
        for i, (p, ab) in enumerate(por):
            nn = np.zeros(3)
            for k in range(1, len(p) - 1):
                nn += np.cross(p[k + 1] - p[0], p[k] - p[0])
            l = np.linalg.norm(nn)
            if l < 1e-6:
                self.bad = 'portal %d has no area: %s' % (i, p.tolist())
                nn, l = np.array([0, 0, 1.0]), 1
            nn = nn / l
            d = float((p @ nn).mean())
            if np.abs(p @ nn - d).max() > .05:
                self.bad = 'portal %d is not flat: %s' % (i, p.tolist())
            en, ed = np.zeros((m, 3)), np.full(m, 1e9)
            for k in range(len(p)):
                e = p[(k + 1) % len(p)] - p[k]
                q = np.cross(nn, e)     # outward is away from the centre
                l = np.linalg.norm(q)
                if l < 1e-9:
                    continue
                q /= l
                if q @ (p.mean(0) - p[k]) > 0:
                    q = -q
                en[k], ed[k] = q, q @ p[k]
                if (p @ q - ed[k]).max() > .1:
                    self.bad = 'portal %d is not convex: %s' % (i, p.tolist())
            self.n.append(nn)
            self.d.append(d)
            self.en.append(en)
            self.ed.append(ed)
        self.n, self.d, self.en, self.ed = np.array(self.n), np.array(self.d), np.array(self.en), np.array(self.ed)

    def inside(self, x, slack):
        near = np.abs(self.n @ x - self.d) < .05
        return near & (((self.en @ x) - self.ed) < slack).all(1)


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(GAMES)[c % len(GAMES)]
    game, args = GAMES[fmt]
    kind = 'convex' if r.random() < .4 else 'grid'
    w = gen(r, game, kind, leak=.04, models=False, closed=.1)
    if not w.placed:
        return
    args = args + [o for o in options(r) if o != '-forceprt1']
    trans = True
    if r.random() < .1:
        args.append('-nofill')
    elif r.random() < .3:
        args.append('-keepprt')
    if not w.q2 and r.random() < .25:
        args += ['-transwater', '0']
        trans = False
    q = qbsp(d, w, 'p%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp', '.prt')]
    what = describe(w, args, fmt)
    if tool_failed(ctx, q, fmt, args):
        return cleanup(q)
    if not os.path.exists(q.base + '.prt'):
        if not os.path.exists(q.base + '.pts'):
            ctx.violation('missing', '%s: no portal file for a world that does not leak' % what, files)
        return cleanup(q)
    b = Bsp(q.base + '.bsp', fmt)

    def fail(key, msg):
        ctx.violation(key, '%s: %s' % (what, msg), files)
        cleanup(q)
    try:
        magic, nc, por, cl = load_prt(q.base + '.prt', w.q2)
    except (ValueError, IndexError, bspfmt.BadFile) as e:
        return fail('format', 'portal file does not parse: %r' % e)
    nl = len(b.cont)
    solid0 = b.cont == (1 if w.q2 else -2)
    if w.q2:
        cluster = b.col('leafs', 'cluster').astype(int)
        solid0 = (b.cont & 1) != 0
        if magic != 'PRT1' or cluster.max() + 1 != nc or ((cluster < 0) & ~solid0).any():
            return fail('clusters', '%s file with %d clusters; leafs use up to %d; %s' % (magic, nc, cluster.max(), [(i, int(b.cont[i]), int(cluster[i])) for i in np.nonzero((cluster < 0) & ~solid0)[0][:4]]))
    else:
        if len(cl) != nl - 1 or int(b.col('models', 'vl')[0]) != nl - 1 or None in cl or sorted(set(cl)) != list(range(nc)):
            return fail('clusters', '%s maps %d leafs to %d clusters; the map has %d leafs (visleafs %d)' % (magic, len(cl), nc, nl - 1, b.col('models', 'vl')[0]))
        cluster = np.array([-1] + cl)
        solid0 = np.zeros(nl, bool)
        solid0[0] = True
    ctx.ok(1)
    clustered = w.q2 or magic != 'PRT1'
    if not por:
        ctx.stat('files_without_portals')
        ctx.ok(1, key=[fmt, 0])
        return cleanup(q)
    P = Portals(por)
    if P.bad:
        return fail('winding', P.bad)
    rs = np.random.RandomState(r.getrandbits(31))
    # each portal: what lies on its two sides
    used = 0
    for i, (p, (fa, fb)) in enumerate(por):
        ctr = p.mean(0)
        for k in range(4):
            x = ctr if k == 0 else (p * rs.dirichlet(np.ones(len(p)))[:, None]).sum(0)
            if P.inside(x, -.3).sum() == 0 or not P.inside(x, -.3)[i]:
                continue
            x = x - P.n[i] * (float(P.n[i] @ x) - P.d[i])
            ctx.ok(1)
            near, far = ([b.leafs_at(np.array([x + P.n[i] * o, x - P.n[i] * o])) for o in (.02, .15)])
            if (near != far).any():     # another boundary comes close here
                continue
            l0, l1 = near
            # the winding faces its front cluster
            for l, want, side in ((l0, fa, "front"), (l1, fb, "back")):
                if solid0[l]:
                    if clustered:
                        continue
                    return fail('opens-into-solid', 'portal %d %d-%d at %s has solid on its %s' % (i, fa, fb, x, side))
                if cluster[l] != want:
                    return fail('wrong-cluster', 'portal %d %d-%d at %s has cluster %d (leaf %d) on its %s' % (i, fa, fb, x, cluster[l], l, side))
            used += 1
            if P.inside(x, -.3).sum() > 1:
                return fail('overlap', 'portals %s overlap at %s' % (np.nonzero(P.inside(x, -.3))[0], x))
    ctx.stat('portals', len(por))
    ctx.stat('portal_points', used)
    # every way from one cluster to another passes through a portal
    lo = np.array(w.off) - np.array(w.half) - 10.0
    hi = np.array(w.off) + np.array(w.half) + 10.0
    open_ = set([0] if w.q2 else [-1] + ([-3, -4, -5] if trans else []))
    cross = 0
    pts = rs.uniform(lo, hi, (400, 3))
    lf = b.leafs_at(pts)
    for j in np.nonzero(~solid0[lf])[0][:120]:
        dirn = rs.normal(size=3)
        dirn /= np.linalg.norm(dirn)
        a, e = pts[j], pts[j] + dirn * rs.uniform(10, 250)
        seg = walk(b, a, e)
        L = np.linalg.norm(e - a)
        for (t0, t1, la), (u0, u1, lb) in zip(seg, seg[1:]):
            if (t1 - t0) * L < .5 or (u1 - u0) * L < .5 or solid0[la] or solid0[lb] or cluster[la] == cluster[lb]:
                continue
            ca, cb = int(b.cont[la]), int(b.cont[lb])
            if w.q2:
                must = not (ca & 1) and not (cb & 1)
            else:
                must = ca in open_ and cb in open_
                if not must and ca == cb:   # the same brushes on both sides
                    bb, _ = w.bits_at(np.array([a + (e - a) * (t1 - .2 / L), a + (e - a) * (t1 + .2 / L)]), 0)
                    must = bb[0] == bb[1]
            x = a + (e - a) * t1
            k = P.inside(x, .1)
            m = k & ((P.ab == [cluster[la], cluster[lb]]).all(1) | (P.ab == [cluster[lb], cluster[la]]).all(1))
            ctx.ok(1)
            cross += 1
            if must and not m.any():
                return fail('transwater0-detail' if not trans and ca == cb and ca in (-3, -4, -5) and magic == 'PRT2' and any(x.cls in ('fence', 'dwall', 'illus', 'detail') for x in w.brushes) else 'missing-portal', 'from cluster %d (leaf %d, contents %d) to cluster %d (leaf %d, contents %d) at %s no portal is listed' % (cluster[la], la, ca, cluster[lb], lb, cb, x))
            if not must and m.any() and not clustered and not w.q2:
                return fail('opaque-portal', 'a portal joins cluster %d (contents %d) and cluster %d (contents %d) at %s' % (cluster[la], ca, cluster[lb], cb, x))
    ctx.stat('crossings', cross)
    ctx.ok(0, key=[fmt, kind, magic, trans, len(por), nc])
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp'])
    ctx.rule = 'distinct = (format, kind of world, file type, transparent water, number of portals, clusters) of portal files judged against the compiled tree'
    ctx.assumptions = ['leaf and cluster numbers are matched the way vis matches them: Q1 leaf i+1 is file leaf i, Q2 leafs carry their cluster', 'crossings closer than .1 to a portal edge count for either side']
    total = ctx.n(560, 9000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
