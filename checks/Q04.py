import os, struct, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import *

VIS = [(S | DS, 0), (SKY, 1), (DW, 2), (WIN, 3), (AUX, 4), (LAVA, 5), (SLIME, 6), (WATER, 7), (MIST, 8)]


def make_wad(path, names):
    body, ents = b'', []
    for n in names:
        t = n.encode().ljust(16, b'\0') + struct.pack('<6I', 16, 16, 40, 296, 360, 376) + bytes(range(256)) + bytes(64 + 16 + 4) + b'\0\1' + bytes(768) + b'\0\0'
        ents.append((12 + len(body), len(t), n))
        body += t
    d = b''.join(struct.pack('<3IBBH', o, l, l, 0x43, 0, 0) + n.encode().ljust(16, b'\0') for o, l, n in ents)
    open(path, 'wb').write(b'WAD3' + struct.pack('<2I', len(ents), 12 + len(body)) + body + d)


def visbits(bits):
    v = np.zeros(bits.shape, np.int64)
    for b, i in VIS:
        v |= np.where(bits & b != 0, 1 << i, 0)
    v = np.where(bits & SKY != 0, 2, v)         # sky and structural solid are nothing else
    return np.where(bits & S != 0, 1, v)


def change(va, vb, q2):
    c = va ^ vb
    if not q2:
        c = np.where((va & 3 != 0) & (vb & 3 != 0), 0, c)
    return c & -c                                # strongest = lowest


def wanted(w, va, vb, q2):
    """faces wanted on a boundary, seen from a and from b: (mask seen from a, mask seen from b, bit)"""
    k = change(va, vb, q2)
    mirror = k & ((1 << 5 | 1 << 6 | 1 << 7) if not q2 else ~(1 << 3 | 1 << 4))
    out_a = (k != 0) & (vb & k != 0)
    out_b = (k != 0) & (va & k != 0)
    seen_a = out_a | (out_b & (mirror != 0))
    seen_b = out_b | (out_a & (mirror != 0))
    # nobody looks out of the solid or the sky
    return seen_a & (va & 1 == 0) & ((va & 2 == 0) | (va & 4 != 0)), seen_b & (vb & 1 == 0) & ((vb & 2 == 0) | (vb & 4 != 0)), k


def polys(b, faces):
    """axis, coordinate, facing, 2D polygon (counterclockwise) of axial faces; None when not axial"""
    out = []
    for f in faces:
        P = b.face_poly(f)
        n, d = b.face_plane(f)
        a = int(np.abs(n).argmax())
        u, v = [k for k in range(3) if k != a]
        Q = P[:, [u, v]]
        x, y = Q[:, 0], Q[:, 1]
        if (x * np.roll(y, -1) - y * np.roll(x, -1)).sum() < 0:
            Q = Q[::-1]
        out.append((a, float(P[0, a]), n[a] > 0, Q, np.ptp(P[:, a]) < .01, f))
    return out


def judge(ctx, w, b, cs, bits, brushes, faces, files, what, r, skipname, noskip, strict):
    q2 = w.q2
    v = visbits(bits)
    rs = np.random.RandomState(r.getrandbits(31))
    R = polys(b, faces)
    bad = [x for x in R if not x[4]]
    if bad:
        ctx.violation('face-shape', '%s: face %d of an axial world is not axial: %s' % (what, bad[0][5], b.face_poly(bad[0][5]).tolist()), files)
        return
    used = set()
    boxes = [(x, np.array(x.lo), np.array(x.hi)) for x in brushes]
    for a in range(3):
        sl = [slice(None)] * 3
        sh = [slice(None)] * 3
        sl[a], sh[a] = slice(0, -1), slice(1, None)
        va, vb = v[tuple(sl)], v[tuple(sh)]
        seen_a, seen_b, k = wanted(w, va, vb, q2)
        u, t = [i for i in range(3) if i != a]
        # sample points on every cell boundary
        ax = []
        for i in range(3):
            if i == a:
                ax.append(cs[i][1:-1])
            else:
                lo, hi = cs[i][:-1], cs[i][1:]
                ax.append(lo + (hi - lo) * rs.uniform(.2, .8, len(lo)))
        X = np.stack(np.meshgrid(*ax, indexing='ij'), -1)
        n_a, n_b = np.zeros(va.shape, int), np.zeros(va.shape, int)     # faces seen from the low and from the high side
        hit, unsure = {}, set()
        for (fa, pos, up, Q, ok, f) in R:
            if fa != a:
                continue
            i = int(np.searchsorted(ax[a], pos - .05))
            used.add(f)
            if i >= len(ax[a]) or abs(ax[a][i] - pos) > .05:
                ctx.violation('face-position', '%s: face %d at %g on axis %d: no brush ends there' % (what, f, pos, a), files)
                return
            lo, hi = Q.min(0), Q.max(0)
            i0, i1 = np.searchsorted(ax[u], [lo[0] - .1, hi[0] + .1])
            j0, j1 = np.searchsorted(ax[t], [lo[1] - .1, hi[1] + .1])
            if i0 == i1 or j0 == j1:
                continue
            U, V = np.meshgrid(ax[u][i0:i1], ax[t][j0:j1], indexing='ij')
            E = np.roll(Q, -1, 0) - Q
            L = np.linalg.norm(E, axis=1)
            dist = np.full(U.shape, np.inf)
            for e in range(len(Q)):
                if L[e] > 1e-6:
                    dist = np.minimum(dist, (E[e, 0] * (V - Q[e, 1]) - E[e, 1] * (U - Q[e, 0])) / L[e])
            for p, q in zip(*np.nonzero(dist > -.05)):
                ix = [0, 0, 0]
                ix[a], ix[u], ix[t] = i, i0 + p, j0 + q
                ix = tuple(ix)
                if abs(dist[p, q]) < .05:
                    unsure.add((ix, up))
                    continue
                (n_b if up else n_a)[ix] += 1
                hit.setdefault((ix, up), []).append(f)
        for up, seen, n in ((False, seen_a, n_a), (True, seen_b, n_b)):
            for ix in zip(*np.nonzero(seen | (n > 0))):
                if (ix, up) in unsure:
                    continue
                x = X[ix]
                here = '%s: boundary %d at %s facing %s (contents bits %x | %x)' % (what, a, x.round(2).tolist(), 'up' if up else 'down', v[tuple(sl)][ix], v[tuple(sh)][ix])
                fs = hit.get((ix, up), [])
                if not seen[ix]:
                    ctx.violation('face-extra', '%s has a face (%d, %s)' % (here, fs[0], b.tex_name(fs[0])), files)
                    return
                # which brushes could have made it
                kk = int(k[ix])
                cand = []
                inlow = bool(va[ix] & kk)
                for (wb, lo, hi) in boxes:
                    if not any(w.bits(wb.cls) & bit for bit, i in VIS if 1 << i == kk):
                        continue
                    if (x[[u, t]] > lo[[u, t]]).all() and (x[[u, t]] < hi[[u, t]]).all() and abs((hi if inlow else lo)[a] - x[a]) < .01:
                        cand.append(wb)
                names = []
                for wb in cand:
                    for s in wb.sides:
                        n0, d0 = s.plane()
                        if n0[a] * (1 if inlow else -1) > .5:
                            names.append(s.tex)
                if not cand:
                    if kk == 1:
                        ctx.stat('boundary_without_brush', 1)
                        continue
                    ctx.violation('oracle', here + ' no brush', files)
                    return
                want = names[-1]
                ctx.ok(1)
                hidden = want.lower() in skipname
                if any(x.lower() in skipname for x in names) and not all(x.lower() in skipname for x in names):
                    continue
                if (v[tuple(sl)] if not up else v[tuple(sh)])[ix] & 4 and not fs:     # nor out of a detail wall, except where a face continues outside it
                    continue
                if (hidden or (noskip and want in ('skip', 'clip', 'hint', 'hintskip', 'mclip'))) and not fs:
                    continue
                if len(fs) != (0 if hidden else 1):
                    ctx.violation('face-missing' if not fs else 'face-double', '%s has %d faces %s, wanted one with texture %s (of %s)' % (here, len(fs), fs, want, names), files)
                    return
                got = b.tex_name(fs[0])
                ctx.stat('overlaps' if len(set(names)) > 1 else 'plain', 1)
                if got is None or got.lower() not in ([want.lower()] if strict else [x.lower() for x in names]):
                    ctx.violation('face-texture', '%s has texture %s, wanted %s (of %s) %s' % (here, got, want, names, [(x.cls, x.lo, x.hi) for x in cand]), files)
                    return
    ctx.stat('faces', len(R))


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(GAMES)[c % len(GAMES)]
    game, args = GAMES[fmt]
    w = gen(r, game, 'grid', leak=.1, drop=('super',))
    if not w.placed or not w.axial:
        return
    w.world.kv.append(('wad', d + '/t.wad'))
    opts = options(r)
    while '-notex' in opts:
        opts = options(r)
    args = args + opts
    nofill = r.random() < .1
    if nofill:
        args = args + ['-nofill']
    q = qbsp(d, w, 'f%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp')]
    what = describe(w, args, fmt)
    if not tool_failed(ctx, q, fmt, args):
        b = Bsp(q.base + '.bsp', fmt)
        cs, bits = w.grid()
        F = Fill(w, cs, bits, nofill)
        eff = bits.copy()
        if F.filled:
            eff = np.where(~F.r1 & ((bits & SEAL) == 0), S, eff)
            eff = np.where(F.r1 & ~F.r2, S, eff)
        # brushes in the order of the map file
        order = {id(s): i for i, s in enumerate(s for e in w.entlist for s in e.brushes)}
        bs = sorted(w.brushes, key=lambda x: order[id(x.sides)])
        mff, mnf = b.col('models', 'ff').astype(int), b.col('models', 'nf').astype(int)
        skip = () if '-noskip' in args else ('skip', 'clip', 'hint', 'hintskip', 'mclip')   # -noskip: either way
        judge(ctx, w, b, cs, eff, bs, range(mff[0], mff[0] + mnf[0]), files, what, r, skip, '-noskip' in args, '-chop' not in args and not w.q2)    # the later brush wins, unless brushes were chopped (always in Quake II)
        ctx.ok(1, key=[fmt, eff.shape, int(mnf[0])])
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp'])
    ctx.rule = 'distinct = (format, grid size, number of faces) of compiled worlds whose every cell boundary was judged'
    total = ctx.n(560, 9000)
    names = [x + str(i) for x in ('wall', 'sky', '*water', '*slime', '*lava', 'det', '{fence', 'dwall', 'ill') for i in (1, 2, 3)] + ['clip', 'skip', 'hint', 'hintskip']

    def shard(s):
        d = ctx.dir('s%d' % s)
        make_wad(d + '/t.wad', names)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
