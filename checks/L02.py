import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import tool_failed, cleanup, Fill
from lworld import *
from checks.Q04 import make_wad

NAMES = [x + str(i) for x in ('wall', 'sky', 'det') for i in (1, 2, 3)]


def add_lights(r, w, q2, n, suns=False, styles=True, neg=.1):
    W = w.world
    put = lambda e, k, v: e.kv.append((k, v))
    if r.random() < .3:
        put(W, '_range', '%g' % r.choice([.25, 1, .5, 2]))
    if r.random() < .2:
        put(W, '_dist', '%g' % r.choice([.5, 2, .25]))
    if r.random() < .2:
        put(W, r.choice(['_anglescale', '_anglesense']), '%g' % r.choice([0, 1, .3]))
    for i in range(n):
        p = free_point(r, w, margin=8)
        if p is None:
            continue
        e = Ent([('classname', r.choice(['light', 'light', 'light_flame_large_yellow', 'light_globe'])), ('origin', '%g %g %g' % tuple(p)), ('netname', 'l%d' % i)])
        d = r.choice([0, 0, 0, 1, 2, 3, 5, None])
        L = r.choice([300, 200, r.randint(20, 900)])
        if d == 3:
            L = r.randint(20, 200)
        if r.random() < neg:
            L = -L
        if r.random() < .9 or d is not None:
            put(e, 'light', str(L))
        if d is not None:
            put(e, 'delay', str(d))
        if r.random() < .3:
            put(e, 'wait', '%g' % r.choice([.5, 2, .25, 1.5]))
        if r.random() < .4:
            put(e, '_color', '%g %g %g' % tuple(r.choice([1, .5, .25, 0, .8]) or .1 for _ in range(3)) if r.random() < .5 else '%d %d %d' % tuple(r.randint(2, 255) for _ in range(3)))
        if r.random() < .25:
            put(e, r.choice(['_anglescale', '_anglesense']), '%g' % r.choice([0, 1, .7]))
        k = r.random()
        if k < .25:
            put(e, 'mangle', '%d %d 0' % (r.randint(0, 359), r.randint(-90, 90)))
        elif k < .45:
            q = free_point(r, w, margin=4)
            if q is not None and np.linalg.norm(q - p) > 4:
                t = 't%d' % i
                put(e, 'target', t)
                w.points.append(Ent([('classname', 'info_null'), ('targetname', t), ('origin', '%g %g %g' % tuple(q))]))
        if r.random() < .5:
            put(e, 'angle', str(r.randint(20, 120)))
            if r.random() < .4:
                put(e, '_softangle', str(r.randint(5, 60)))
        if styles and r.random() < .3:
            put(e, 'style', str(r.choice([1, 2, 5])))
        elif styles and r.random() < .2:
            put(e, 'targetname', r.choice(['sa', 'sb', 'sd']))
        if r.random() < .15:
            put(e, '_light_channel_mask', str(r.choice([2, 3, 4])))
        if r.random() < .1:
            put(e, '_shadow_channel_mask', str(r.choice([1, 2, 3, 4])))
        if r.random() < .15 and d in (0, None):
            put(e, '_falloff', str(r.randint(50, 500)))
        w.points.append(e)


def judge(ctx, w, b, fmt, files, what, extra=1, scale=16.0, samples=64):
    rgb = fmt in RGB
    bad = assigned_styles(w, b)
    if bad:
        ctx.violation('style', '%s: %s' % (what, bad), files)
        return
    M = Model(w, extra, samples)
    st = np.stack([b.col('faces', 'st%d' % i) for i in range(4)], 1).astype(int)
    ofs = b.col('faces', 'lo').astype(np.int64)
    data = np.frombuffer(bytes(b.L['lighting']), np.uint8)
    mff, mnf = b.col('models', 'ff').astype(int), b.col('models', 'nf').astype(int)
    seen = {}
    keys = {e.get('model'): e.get('netname') for e in b.entities() if e.get('netname')}
    for k in range(len(mff)):
        key = keys.get('*%d' % k, 0)
        for f in range(mff[k], mff[k] + mnf[k]):
            tex = (b.tex_name(f) or '').lower()
            if tex.startswith('sky') or tex.startswith('*') or tex in ('skip', 'clip', 'hint'):
                continue
            lx = Luxels(b, f, scale)
            if not lx.sure or abs(lx.det) < 1e-3:
                ctx.stat('face_skipped', 1)
                continue
            want, ok = M.face(lx, key)
            if want is not None and k:
                # rooms that nothing can reach are filled in
                T, Sx = np.mgrid[0:lx.h, 0:lx.w]
                c = b.contents_at(lx.world(Sx.ravel(), T.ravel())).reshape(ok.shape).astype(int)
                ok = ok & ~((c & 1) == 1 if w.q2 else c == -2)
            if want is None or not ok.any():
                ctx.stat('face_unjudged', 1)
                continue
            size = lx.w * lx.h
            ch = 3 if rgb else 1
            have = {}
            if ofs[f] >= 0:
                o = int(ofs[f])
                for i in range(4):
                    if st[f, i] == 255:
                        break
                    a = data[o + i * size * ch:o + (i + 1) * size * ch]
                    if len(a) < size * ch:
                        ctx.violation('size', '%s: face %d: lightmap %dx%d style slot %d at %d runs over the end of the lump (%d)' % (what, f, lx.w, lx.h, i, o, len(data)), files)
                        return
                    have[int(st[f, i])] = a.reshape(lx.h, lx.w, ch)
            extra_styles = set(have) - set(want)
            if extra_styles:
                ctx.violation('style', '%s: face %d has light of style %s, lights only have %s' % (what, f, sorted(extra_styles), sorted(want)), files)
                return
            for s, v in want.items():
                hi = M.hi[s] if rgb else M.hi[s].max(2, keepdims=True)
                if not rgb:
                    # the brightest of the three components
                    v = v.max(2, keepdims=True)
                if s not in have:
                    # left out when no sample is brighter than 1 on average of the three colors; the number of styles is limited to four
                    if len(have) < 4 and (want[s].mean(2) > (2 if extra == 1 else 30))[ok].any():
                        y, x = [int(i[0]) for i in np.nonzero((want[s].mean(2) > (2 if extra == 1 else 30)) & ok)]
                        ctx.violation('missing', '%s: face %d (texture %s) has no light of style %d, luxel %d,%d at %s should be %s; styles %s' % (
                            what, f, tex, s, x, y, lx.world(np.array([x]), np.array([y]))[0].round(2).tolist(), want[s][y, x].round(1).tolist(), sorted(have)), files)
                        return
                    ctx.ok(1)
                    continue
                g = have[s].astype(float)
                tol = 1.05 + .006 * hi
                bad = ((g < np.floor(v) - tol) | (g > hi + tol)).any(2) & ok
                ctx.ok(int(ok.sum()))
                ctx.stat('dark', int((ok & (v.max(2) < .5)).sum()))
                ctx.stat('lit', int((ok & (v.max(2) >= .5)).sum()))
                if bad.any():
                    ys, xs = np.nonzero(bad)
                    y, x = int(ys[0]), int(xs[0])
                    ctx.violation('value', '%s: face %d (texture %s, model %d) luxel %d,%d of %dx%d at %s facing %s, style %d: %s, wanted %s; %d of %d luxels differ' % (
                        what, f, tex, k, x, y, lx.w, lx.h, lx.world(np.array([x]), np.array([y]))[0].round(2).tolist(), lx.n.round(3).tolist(), s, g[y, x].tolist(), v[y, x].round(2).tolist(), bad.sum(), ok.sum()), files)
                    return
    return True


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(FORMATS)[c % len(FORMATS)]
    game, args = FORMATS[fmt]
    w = room(r, game, 'grid' if r.random() < .6 else 'convex', sky=.2)
    if not w.placed:
        return
    models(r, w, r.randint(0, 3))
    add_lights(r, w, w.q2, r.randint(1, 5))
    w.world.kv.append(('wad', d + '/t.wad'))
    w.finish(r)
    q = qbsp(d, w, 'l%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp')]
    if tool_failed(ctx, q, fmt, args) or not os.path.exists(q.base + '.bsp'):
        return
    largs, extra = [], 1
    k = r.random()
    if k < .15:
        largs, extra = ['-extra'], 2
    elif k < .22:
        largs, extra = ['-extra4'], 4
    largs += ['-visapprox', 'none', '-bounce', '0']
    if r.random() < .3:
        largs += ['-threads', '4']
    l = light(d, q.base + '.bsp', largs)
    what = '%s light %s' % (fmt, ' '.join(largs))
    if not tool_failed(ctx, l, fmt, largs):
        b = Bsp(q.base + '.bsp', fmt)
        if judge(ctx, w, b, fmt, files, what, extra):
            ctx.ok(1, key=[fmt, extra, len(b.L['faces']), len(b.L['lighting'])])
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp', 'light'])
    ctx.rule = 'distinct = (format, oversampling, number of faces, bytes of lighting) of worlds whose every certain luxel was compared'
    total = ctx.n(320, 6000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        make_wad(d + '/t.wad', NAMES)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
