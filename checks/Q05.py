import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import *


def seg_cells(cs, p, q):
    """midpoints of the stretches of p-q between the grid planes (stretches longer than .02)"""
    t = {0.0, 1.0}
    for i in range(3):
        d = q[i] - p[i]
        if abs(d) > 1e-12:
            for x in cs[i]:
                u = (x - p[i]) / d
                if 0 < u < 1:
                    t.add(u)
    t = sorted(t)
    L = np.linalg.norm(q - p)
    return [p + (q - p) * (a + b) / 2 for a, b in zip(t, t[1:]) if (b - a) * L > .02]


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(GAMES)[c % len(GAMES)]
    game, args = GAMES[fmt]
    w = gen(r, game, 'grid', leak=.45, models=r.random() < .3)
    if not w.placed:
        return
    extra = []
    # entities outside the shell: real ones leak, excused ones do not; entities inside solid do not count
    if r.random() < .3:
        side = r.randint(0, 2)
        p = [w.off[k] + .5 for k in range(3)]
        p[side] = w.off[side] + r.choice([-1, 1]) * (w.half[side] + 70) + .5
        kind = r.choice(['_nofill', '_nofill', '_lightgrid_hint', ''])
        e = Ent([('classname', 'light'), ('origin', '%g %g %g' % tuple(p))] + ([(kind, '1')] if kind else []))
        w.points.append(e)
        w.entlist.insert(r.randint(1, len(w.entlist)), e)
        extra += [[v - 1 for v in p], [v + 1 for v in p]]
    solids = [x for x in w.brushes if x.cls in ('solid', 'sky')]
    if r.random() < .3:
        x = r.choice(solids)
        e = Ent([('classname', 'light'), ('origin', '%g %g %g' % tuple((a + z) / 2 + .25 for a, z in zip(x.lo, x.hi)))])
        w.points.append(e)
        w.entlist.insert(r.randint(1, len(w.entlist)), e)
    args = args + [o for o in options(r) if o not in ('-keepprt',)]
    keep = r.random() < .15
    nofill = r.random() < .06
    leaktest = r.random() < .12
    dist = r.choice([0, 0, 0, 2, 17])
    ft = r.choice(['', '', '', 'inside', 'auto', 'outside'])
    args += ['-keepprt'] * keep + ['-nofill'] * nofill + ['-leaktest'] * leaktest + (['-leakdist', str(dist)] if dist else []) + (['-filltype', ft] if ft else [])
    cs, bits = w.grid(extra=extra)
    F = Fill(w, cs, bits, nofill)
    w.occ2 = F.occ
    leak = F.leak and not nofill
    stale = r.random() < .3
    name = 'l%d' % c
    base = os.path.join(d, name)
    what = describe(w, args, fmt)
    # files of an earlier compile must not survive into this one
    q = qbsp(d, w, name, args, keep={'.pts': '1 2 3\n', '.prt': 'PRT1\n1\n0\n'} if stale else None)
    files = [base + e for e in ('.map', '.bsp', '.prt', '.pts')]

    def fail(key, msg):
        ctx.violation(key, '%s: %s' % (what, msg), files)
        cleanup(q)
    if q.timed_out or q.crashed:
        ctx.crash(q, 'qbsp', files)
        return cleanup(q)
    pts, prt = os.path.exists(base + '.pts'), os.path.exists(base + '.prt')
    ctx.ok(1, key=[fmt, leak, nofill, leaktest, keep, dist, ft, stale, int(F.r1.sum()).bit_length(), len(F.occ)])
    ctx.stat('leaking' if leak else 'sealed')
    if q.rc != (1 if leak and leaktest else 0):
        return fail('exit', 'exit code %d; leaks %s' % (q.rc, leak))
    if leaktest and leak:
        return cleanup(q)
    if pts != leak:
        return fail('pts', 'leak file %s, but the world %s (reached from %s)' % ('written' if pts else 'missing', 'leaks' if leak else 'is sealed', F.occ))
    if not os.path.exists(base + '.bsp'):
        return fail('no-bsp', 'no bsp written')
    if prt != (not leak or keep):
        return fail('prt', 'portal file %s; leaks %s keepprt %s' % ('there' if prt else 'missing', leak, keep))
    if leak:
        try:
            P = [np.array([float(v) for v in l.split()]) for l in open(base + '.pts') if l.strip()]
            assert all(len(p) == 3 for p in P)
        except (ValueError, AssertionError):
            return fail('pts-format', 'leak file does not parse')
        if not P:
            ctx.stat('entity_in_outer_leaf')
            return cleanup(q)
        starts = [np.array([float(x) for x in e.get('origin').split()]) for e in w.points if e.get('_nofill') != '1' and e.get('_lightgrid_hint') != '1']
        if dist == 0 and min(np.abs(P[0] - s).max() for s in starts) > .01:
            return fail('pts-start', 'leak line starts at %s, no entity is there' % P[0])
        for a, z in zip(P, P[1:] if dist == 0 else P):
            if dist == 0 and np.abs(a - z).max() < 1e-6:
                continue
            for m in (seg_cells(cs, a, z) if dist == 0 else [a]):
                i = tuple(int(np.searchsorted(cs[k], m[k], 'right')) - 1 for k in range(3))
                if any(v < 0 or v >= len(cs[k]) - 1 for k, v in enumerate(i)):
                    continue
                ctx.ok(1)
                # a point on a plane between two cells may belong to either
                near = [i]
                for k in range(3):
                    for o in (-1, 1):
                        e = cs[k][i[k]] if o < 0 else cs[k][i[k] + 1]
                        if abs(m[k] - e) < .01:
                            near += [tuple(n[x] + (o if x == k else 0) for x in range(3)) for n in near]
                if all(all(0 <= n[k] < bits.shape[k] for k in range(3)) and bits[n] & SEAL for n in near):
                    return fail('pts-through-solid', 'leak line from %s to %s passes through solid at %s' % (a, z, m))
        ctx.stat('leak_points', len(P))
        # the far end can see the outside
        if dist == 0:
            lo = np.array([x[0] for x in cs])
            hi = np.array([x[-1] for x in cs])
            rs = np.random.RandomState(r.getrandbits(31))
            T = rs.uniform(lo, hi, (6000, 3))
            a = rs.randint(0, 3, 6000)
            T[np.arange(6000), a] = np.where(rs.randint(0, 2, 6000) == 1, hi[a], lo[a])
            free = ~seg_blocked(P[-1], T, brush_solids(w, SEAL), -.01)
            ctx.stat('ends_seeing_outside' if free.any() else 'ends_not_judged')
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp'])
    ctx.rule = 'distinct = (format, leaks, -nofill, -leaktest, -keepprt, -leakdist, -filltype, stale files, size of what is reached, entities) of worlds compiled'
    ctx.assumptions = ['whether an axial world leaks is decided by flooding the exact arrangement of its brushes from every entity that counts']
    total = ctx.n(1400, 16000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
    if not ctx.viol and ctx.stats.get('ends_not_judged', 0) > .3 * max(1, ctx.stats.get('ends_seeing_outside', 0)):
        raise vp.Broken('too many leak lines whose end could not be judged: %s' % ctx.stats)
