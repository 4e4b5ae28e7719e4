import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import *


class Bad(Exception):
    pass


def need(ok, key, msg):
    if not ok:
        raise Bad(key, msg)


SOFT = ('mark-missing', 'face-convex', 'edge-loop-repeat', 'face-winding', 'node-face-plane', 'face-plane')


def structure(b, r, lo, hi, exact):
    # sloped planes that nearly coincide leave a rare sliver face which the compiler's epsilons handle in no particular
    # way: away from the grid a map may have two faces that break a geometric clause, a third one is reported
    bad = {}

    def need(ok, key, msg):
        if not ok:
            if not exact and key in SOFT:
                bad[key, msg.split(' ')[1]] = msg
                if len({k[1] for k in bad}) <= 2:
                    return
            raise Bad(key, msg)

    # on sloped brushes the compiler welds vertices closer than a fraction of a unit, which may leave short spikes; on the grid nothing is welded
    tol, tplane = (.1, .05) if exact else (1., .3)
    L, q2 = b.L, b.q2
    nn, nl, nf, nm = len(L['nodes']), len(L['leafs']), len(L['faces']), len(L['models'])
    # planes
    ln = np.linalg.norm(b.pn, axis=1)
    need((np.abs(ln - 1) < 1e-4).all(), 'plane-normal', 'plane %d is not of unit length' % int(np.abs(ln - 1).argmax()))
    for i in range(len(b.pn)):
        n, t = b.pn[i], b.pt[i]
        a = np.abs(n)
        if t < 3:
            need(a[t] == 1 and a.sum() == 1, 'plane-type', 'plane %d %s has type %d' % (i, n, t))
        else:
            need(t < 6 and a[t - 3] >= a.max() - 1e-6 and a.max() < 1, 'plane-type', 'plane %d %s has type %d' % (i, n, t))
    need(nn == 0 or ((b.nplane >= 0) & (b.nplane < len(b.pn))).all(), 'node-plane', 'node plane out of range')
    # the trees
    seen_n, seen_l = np.zeros(nn, int), np.zeros(nl, int)
    parent = {}
    owner = np.full(nn, -1)
    lowner = np.full(nl, -1)
    for m in range(nm):
        st = [b.head(m)]
        while st:
            k = st.pop()
            if k < 0:
                need(-1 - k < nl, 'leaf-range', 'leaf %d does not exist' % (-1 - k))
                seen_l[-1 - k] += 1
                lowner[-1 - k] = m
                continue
            need(k < nn, 'node-range', 'node %d does not exist' % k)
            seen_n[k] += 1
            owner[k] = m
            need(seen_n[k] == 1, 'node-shared', 'node %d is reached twice' % k)
            for x in b.kids[k]:
                parent[int(x)] = k
            st += [int(x) for x in b.kids[k]]
    need((seen_n == 1).all(), 'node-orphan', '%d nodes belong to no tree' % (seen_n == 0).sum())
    need((seen_l[1:] == 1).all(), 'leaf-use', 'leafs %s are used %s times' % (np.nonzero(seen_l[1:] != 1)[0][:5] + 1, seen_l[1:][seen_l[1:] != 1][:5]))
    # bounds
    nmn, nmx, lmn, lmx = b.cols('nodes', 'mn', 3), b.cols('nodes', 'mx', 3), b.cols('leafs', 'mn', 3), b.cols('leafs', 'mx', 3)
    for k in range(nn):
        need((nmn[k] <= nmx[k]).all(), 'node-bounds', 'node %d has bounds %s..%s' % (k, nmn[k], nmx[k]))
        for x in b.kids[k]:
            x = int(x)
            if x >= 0:
                need((nmn[x] >= nmn[k] - 1.01).all() and (nmx[x] <= nmx[k] + 1.01).all(), 'bounds-nest', 'node %d reaches out of its parent %d' % (x, k))
    rs = np.random.RandomState(r.getrandbits(31))
    pts = rs.uniform(lo, hi, (2500, 3))
    lf = b.leafs_at(pts)
    sol = b.cont[lf] == (1 if q2 else -2)
    live = np.nonzero(~sol)[0]
    inb = ((pts[live] >= lmn[lf[live]] - 1.01) & (pts[live] <= lmx[lf[live]] + 1.01)).all(1)
    need(inb.all(), 'leaf-bounds', 'a point lies in a leaf whose bounds do not contain it: %s' % (
        [] if inb.all() else [pts[live][~inb][0].tolist(), int(lf[live][~inb][0]), lmn[lf[live][~inb][0]].tolist(), lmx[lf[live][~inb][0]].tolist()]))
    for i in live[:200]:
        k = -1 - int(lf[i])
        while k in parent:
            k = parent[k]
            need((pts[i] >= nmn[k] - 1.01).all() and (pts[i] <= nmx[k] + 1.01).all(), 'node-bounds-point', 'node %d does not contain a point of its own tree %s' % (k, pts[i]))
    # edges and faces
    ne, nv, nt = len(b.edges), len(b.verts), len(L['texinfo'])
    need(nf == 0 or (b.edges < nv).all(), 'edge-range', 'edge vertex out of range')
    fe, fn = (b.col('faces', 'fe').astype(int), b.col('faces', 'ne').astype(int)) if nf else (np.zeros(0, int),) * 2
    need((np.abs(b.surfedges) < ne).all() if nf else True, 'surfedge-range', 'surfedge out of range')
    if nf:
        ti = b.col('faces', 'ti').astype(int)
        need((ti >= 0).all() and (ti < nt).all(), 'texinfo-range', 'texinfo out of range')
        fp = b.col('faces', 'plane').astype(int)
        need((fp < len(b.pn)).all(), 'face-plane-range', 'face plane out of range')
    for f in range(nf):
        need(fn[f] >= 3 and fe[f] >= 0 and fe[f] + fn[f] <= len(b.surfedges), 'face-edges', 'face %d has edges %d+%d' % (f, fe[f], fn[f]))
        se = b.surfedges[fe[f]:fe[f] + fn[f]]
        a = np.where(se >= 0, b.edges[np.abs(se), 0], b.edges[np.abs(se), 1])
        z = np.where(se >= 0, b.edges[np.abs(se), 1], b.edges[np.abs(se), 0])
        need((z == np.roll(a, -1)).all(), 'edge-loop', 'face %d: edges do not join end to end' % f)
        if len(set(a.tolist())) != len(a):      # only a spike shorter than the weld distance may come back to a vertex
            for i in range(len(a)):
                for k in range(i + 1, len(a)):
                    if a[i] == a[k]:
                        V = b.verts[a]
                        ext = min(np.abs(V[i:k] - V[i]).max(), np.abs(np.concatenate([V[k:], V[:i + 1]]) - V[i]).max())
                        need(not exact and ext < 1, 'edge-loop-repeat', 'face %d visits a vertex twice, %g apart' % (f, ext))
        need((se != 0).all(), 'edge-zero', 'face %d uses edge 0, which has no direction' % f)
        P = b.verts[a]
        n, d = b.face_plane(f)
        need(np.abs(P @ n - d).max() < tplane, 'face-plane', 'face %d is off its plane by %g' % (f, np.abs(P @ n - d).max()))
        nrm = np.zeros(3)
        for k in range(1, len(P) - 1):
            nrm += np.cross(P[k + 1] - P[0], P[k] - P[0])
        need(np.linalg.norm(nrm) < 4 or nrm @ n > .9 * np.linalg.norm(nrm), 'face-winding', 'face %d turns the wrong way for its plane: %s vs %s' % (f, nrm, n))
        for k in range(len(P)):
            e = P[(k + 1) % len(P)] - P[k]
            l = np.linalg.norm(e)
            if l < .5:
                need(not exact or l > 1e-6, 'face-edge-length', 'face %d has an edge without length' % f)
                if not exact:
                    continue
            o = np.cross(e / l, n)
            need(min(((P - P[k]) @ o).max(), -((P - P[k]) @ o).min()) < tol, 'face-convex', 'face %d is not convex' % f)
    # which model and node owns a face
    mff, mnf = b.col('models', 'ff').astype(int), b.col('models', 'nf').astype(int)
    rng = sorted((int(a), int(a + n)) for a, n in zip(mff, mnf) if n)
    need(all(x[1] == y[0] for x, y in zip(rng, rng[1:])) and (not rng or (rng[0][0] == 0 and rng[-1][1] == nf)) and (nf == 0 or bool(rng)), 'model-faces', 'model face ranges %s do not partition %d faces' % (rng[:6], nf))
    model_of = np.full(nf, -1)
    for m in range(nm):
        model_of[mff[m]:mff[m] + mnf[m]] = m
    innode = np.zeros(nf, int)
    if nn:
        nff, nnf = b.col('nodes', 'ff').astype(int), b.col('nodes', 'nf').astype(int)
        for k in range(nn):
            need(nff[k] + nnf[k] <= nf, 'node-faces', 'node %d lists faces %d+%d of %d' % (k, nff[k], nnf[k], nf))
            for f in range(nff[k], nff[k] + nnf[k]):
                innode[f] += 1
                need(model_of[f] == owner[k], 'node-face-model', 'node %d of model %d lists face %d of model %d' % (k, owner[k], f, model_of[f]))
                p, q = fp[f], b.nplane[k]
                need(p == q or (q2 and (b.pn[p] == -b.pn[q]).all() and b.pd[p] == -b.pd[q]), 'node-face-plane', 'node %d on plane %d %s lists face %d on plane %d %s' % (k, q, [b.pn[q], b.pd[q]], f, p, [b.pn[p], b.pd[p]]))
    need((innode == 1).all(), 'face-node', 'faces %s are listed by %s nodes' % (np.nonzero(innode != 1)[0][:5], innode[innode != 1][:5]))
    # leafs list the faces seen from inside them
    marks = [int(x[0]) for x in L['leaffaces']]
    need(all(0 <= x < nf for x in marks), 'mark-range', 'leaf face out of range')
    lfm, lnm = b.col('leafs', 'fm').astype(int), b.col('leafs', 'nm').astype(int)
    lists = []
    for l in range(nl):
        need(lfm[l] + lnm[l] <= len(marks), 'mark-list', 'leaf %d lists faces %d+%d of %d' % (l, lfm[l], lnm[l], len(marks)))
        s = marks[lfm[l]:lfm[l] + lnm[l]]
        need(len(set(s)) == len(s), 'mark-twice', 'leaf %d lists a face twice' % l)
        need(all(lowner[l] == model_of[f] for f in s) or l == 0, 'mark-model', 'leaf %d lists faces of another model' % l)
        lists.append(set(s))
    n_mark = 0
    for f in range(nf):
        P = b.face_poly(f)
        n, d = b.face_plane(f)
        W = rs.dirichlet(np.ones(len(P)), 3)
        X = np.concatenate([P.mean(0)[None], W @ P])
        X -= np.outer(X @ n - d, n)
        for m in [model_of[f]]:
            j, out = (.1, (.03, .12)) if exact else (.6, (.1, 1.))
            near = b.leafs_at(X + n * out[0], m)
            far = b.leafs_at(X + n * out[1], m)
            for x, l, l2 in zip(X, near, far):
                # a disc of two leafs, away from every other boundary
                u = np.cross(n, np.eye(3)[np.abs(n).argmin()])
                u /= np.linalg.norm(u)
                g = np.arange(6 if exact else 16) * (2 * np.pi / (6 if exact else 16)) + .1
                t = j * (np.outer(np.cos(g), u) + np.outer(np.sin(g), np.cross(n, u)))
                js, bs = b.leafs_at(x + t + n * out[0], m), b.leafs_at(x + t - n * out[0], m)
                if l != l2 or (js != l).any() or (bs != bs[0]).any() or (l == 0) or (b.cont[l] == (1 if q2 else -2)):
                    continue
                if m != 0 and not q2 and b.cont[l] == -2:
                    continue
                n_mark += 1
                need(f in lists[l], 'mark-missing', 'face %d (model %d, texture %s) borders leaf %d (contents %d) at %s, which does not list it' % (f, m, b.tex_name(f), l, b.cont[l], x))
    # clip hulls
    if not q2 and len(b.ckids):
        nc = len(b.ckids)
        need(((b.cplane >= 0) & (b.cplane < len(b.pn))).all(), 'clip-plane', 'clipnode plane out of range')
        need((b.ckids < nc).all() and (b.ckids >= -16).all(), 'clip-range', 'clipnode child out of range')
        state = np.zeros(nc, int)
        nh = sum(1 for n in b.spec['models'][1] if n.startswith('head'))
        for m in range(nm):
            for h in range(1, nh):
                st = [b.head(m, h)]
                need(st[0] < nc, 'clip-head', 'model %d hull %d starts at clipnode %d of %d' % (m, h, st[0], nc))
                while st:
                    k = st.pop()
                    if k < 0 or (h > 3 and b.head(m, h) == 0):
                        continue
                    if state[k] == (m + 1) * 16 + h:
                        raise Bad('clip-cycle', 'clipnode %d is reached twice in one hull' % k)
                    state[k] = (m + 1) * 16 + h
                    st += [int(x) for x in b.ckids[k]]
    return dict(faces=nf, nodes=nn, leafs=nl, border_points=n_mark, models=nm, slivers=len(bad))


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(GAMES)[c % len(GAMES)]
    game, args = GAMES[fmt]
    kind = 'convex' if r.random() < .6 else 'grid'
    w = gen(r, game, kind, leak=.1, drop=('super',))
    args = args + options(r, 3)
    q = qbsp(d, w, 's%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp')]
    what = describe(w, args, fmt)
    if not tool_failed(ctx, q, fmt, args):
        try:
            b = Bsp(q.base + '.bsp', fmt)
            lo = np.array(w.off) - np.array(w.half) - 10.0
            hi = np.array(w.off) + np.array(w.half) + 10.0
            st = structure(b, r, lo, hi, kind == 'grid')
            for k, v in st.items():
                ctx.stat(k, v)
            ctx.ok(st['faces'] + st['nodes'] + st['leafs'], key=[fmt, kind, st['faces'], st['nodes']])
        except Bad as e:
            ctx.violation(e.args[0], '%s: %s' % (what, e.args[1]), files)
        except bspfmt.BadFile as e:
            ctx.violation('file', '%s: %s' % (what, e), files)
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp'])
    ctx.rule = 'distinct = (format, kind of world, faces, nodes) of compiled files whose whole structure was walked'
    ctx.assumptions = ['16-bit bounds may be rounded outwards by one unit']
    total = ctx.n(560, 9000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
