import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import *


def judge_models(ctx, w, b, files, what):
    """point contents inside each brush model"""
    ents = [e for e in b.entities() if e.get('model').startswith('*')]
    brushents = [e for e in w.entlist if getattr(e, 'wb', None)]
    if len(ents) != len(brushents):
        ctx.violation('models', '%s: %d entities with a model, %d brush entities' % (what, len(ents), len(brushents)), files)
        return
    for e, m in zip(ents, brushents):
        k = int(e.get('model')[1:])
        lo = np.min([x.lo for x in m.wb], 0)
        hi = np.max([x.hi for x in m.wb], 0)
        cs = [np.array(sorted({x.lo[i] for x in m.wb} | {x.hi[i] for x in m.wb} | {lo[i] - 40, hi[i] + 40})) for i in range(3)]
        P = cell_points(cs, ctx.rng('m'), 2)
        for pts in P:
            got = b.contents_at(pts, k)
            inside = np.zeros(len(pts), bool)
            bits = np.zeros(len(pts), np.int64)
            for x in m.wb:
                a = x.inside(pts)
                inside |= a
                bits[a] |= w.bits(x.cls)
            want = w.native(bits) if w.q2 else np.where(inside, -2, -1)
            bad = got != want
            ctx.ok(len(pts))
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                ctx.violation('model-contents', '%s: %s model %d at %s has contents %d, brushes say %d (%d of %d points)' % (what, m.get('classname'), k, pts[i], got[i], want[i], bad.sum(), len(pts)), files)
                return
        ctx.stat('brush_models', 1)


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(GAMES)[c % len(GAMES)]
    game, args = GAMES[fmt]
    kind = 'convex' if r.random() < .35 else 'grid'
    w = gen(r, game, kind, leak=.1)
    if not w.placed:
        return
    args = args + options(r)
    nofill = r.random() < .12
    nodet = r.random() < .08
    fd = r.random() >= .1
    if nofill:
        args = args + ['-nofill']
    if not fd:
        args = args + ['-filldetail', '0']
    if nodet:
        args = args + ['-nodetail']
    om = None if nodet else r.choice(['-omitdetail', '-omitdetailwall', '-omitdetailfence', '-omitdetailillusionary']) if r.random() < .1 else None
    if om:
        args = args + [om] + (['-transwater', '0'] if om == '-omitdetail' and not w.q2 else [])
    elif not w.q2 and r.random() < .1:
        args = args + ['-transwater', '0']
    q = qbsp(d, w, 'w%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp', '.prt', '.pts')]
    what = describe(w, args, fmt)
    if not tool_failed(ctx, q, fmt, args):
        b = Bsp(q.base + '.bsp', fmt)
        if nodet:
            nodetail(w)
        if om:
            omitdetail(w, om)
        if w.axial:
            cs, bits = w.grid()
            F = Fill(w, cs, bits, nofill, fd)
            want, either = expected_cells(w, bits, F)
            for pts in cell_points(cs, r, 3):
                got = b.contents_at(pts).reshape(bits.shape)
                bad = bad_cells(w, got, want, either)
                ctx.ok(bits.size)
                if bad.any():
                    i = tuple(int(x) for x in np.argwhere(bad)[0])
                    ctx.violation('contents', '%s: point %s has contents %d, the brushes there (%#x) say %d (filled %s, reached %s/%s); %d of %d cells wrong' % (
                        what, pts.reshape(bits.shape + (3,))[i], got[i], bits[i], want[i], F.filled, F.r1[i], F.r2[i], bad.sum(), bad.size), files)
                    break
            ctx.ok(0, key=[fmt, 'grid', F.filled, bool((F.r1 & ~F.r2).any()), int(bits.size).bit_length(), sorted({int(x) for x in np.unique(want)})])
            ctx.stat('cells', bits.size)
            ctx.stat('leaking' if F.leak else 'sealed', 1)
        else:
            rs = np.random.RandomState(r.getrandbits(31))
            lo = np.array(w.off) - np.array(w.half) - 48.0
            hi = np.array(w.off) + np.array(w.half) + 48.0
            pts = rs.uniform(lo, hi, (6000, 3))
            bits, sure = w.bits_at(pts, MARGIN)
            got = b.contents_at(pts)
            want = w.native(bits)
            if nofill or not w.placed:
                reach = np.ones(len(pts), bool)
                outside = np.zeros(len(pts), bool)
            else:
                starts = [[float(x) for x in e.get('origin').split()] for e in w.points]
                reach = ray_reach(r, starts, pts, brush_solids(w, SEAL | DS))
                outside = ((pts < lo + 46) | (pts > hi - 46)).any(1)
                if (reach & outside).any():      # leaks: nothing is filled
                    reach[:] = True
                    outside[:] = False
                elif w.leaky:
                    outside[:] = False
            solid = 1 if w.q2 else -2
            filled = (got == solid) | ((got == -6) & (not w.q2))
            ok = np.where(outside, filled, np.where(reach, got == want, (got == want) | filled))
            bad = sure & ~ok
            ctx.ok(int(sure.sum()))
            ctx.stat('points', int(sure.sum()))
            ctx.stat('points_reached', int((sure & reach).sum()))
            ctx.ok(0, key=[fmt, 'convex', nofill, sorted({int(x) for x in np.unique(want)})])
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                ctx.violation('contents-convex', '%s: point %s has contents %d, the brushes there (%#x) say %d (outside %s, reached %s); %d of %d points wrong' % (
                    what, pts[i], got[i], bits[i], want[i], outside[i], reach[i], bad.sum(), len(pts)), files)
        judge_models(ctx, w, b, files, what)
    cleanup(q)


MARGIN = .3


def check(ctx):
    vp.build('san', ['qbsp'])
    ctx.rule = 'distinct = (format, kind of world, filled, detail-filled, size, set of contents) of compiled worlds whose every cell (or thousands of sampled points) was looked up'
    ctx.assumptions = ['worlds made of axial brushes are judged in every cell of the arrangement of their planes; worlds with sloped brushes at sampled points at least %g units from every brush side' % MARGIN,
                       'in sloped worlds only points reached by straight hops with 4 units of clearance are required to keep their contents after the fill']
    total = ctx.n(560, 9000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        for k, c in enumerate(range(s, total, 8)):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
