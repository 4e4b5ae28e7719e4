import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import tool_failed, cleanup
from lworld import *
from checks.Q04 import make_wad
from checks.L02 import add_lights, NAMES

UNLIT = ('skip', 'clip', 'hint', 'hintskip')


def judge(ctx, w, b, fmt, files, what, extra, mode, lit=None):
    rgb = fmt in RGB
    bad = assigned_styles(w, b)
    if bad:
        ctx.violation('style', '%s: %s' % (what, bad), files)
        return
    sl, bad = slots(b, fmt)
    if bad:
        ctx.violation(bad[0][0], '%s: %s' % (what, bad[0][1]), files)
        return
    data = np.frombuffer(bytes(b.L['lighting']), np.uint8)
    if rgb and len(data) % 3:
        ctx.violation('size', '%s: %d bytes of colored light' % (what, len(data)), files)
        return
    data = data.reshape(-1, 3 if rgb else 1)
    uniq = []
    for (f, k), s in sl.items():
        v = sl.get((f, 'v'))
        if k == 's' and v is not None and v.ofs == s.ofs and (v.lx.w, v.lx.h) == (s.lx.w, s.lx.h):
            # one lightmap for both
            if v.styles != s.styles[:len(v.styles)]:
                ctx.violation('style', '%s: face %d has styles %s, and %s in the extension lumps for the same lightmap' % (what, f, v.styles, s.styles), files)
                return
            continue
        if k == 'v' and (f, 's') in sl and sl[f, 's'].ofs == s.ofs:
            o = sl[f, 's']
            if (o.lx.w, o.lx.h) == (s.lx.w, s.lx.h):
                s = o
        uniq.append(s)
    for (f, k), s in list(sl.items()):
        if k == 's' and (f, 'v') in sl and sl[f, 'v'].ofs == s.ofs and (sl[f, 'v'].lx.w, sl[f, 'v'].lx.h) == (s.lx.w, s.lx.h) and s not in uniq:
            uniq.append(s)
    bad = tiling(uniq, len(data))
    if bad:
        ctx.violation('layout', '%s: %s' % (what, bad), files)
        return
    ctx.ok(len(uniq))
    ctx.stat('slots_' + mode, len(uniq))
    M = Model(w, extra)
    mff, mnf = b.col('models', 'ff').astype(int), b.col('models', 'nf').astype(int)
    model = np.repeat(np.arange(len(mff)), mnf)
    keys = {e.get('model'): e.get('netname') for e in b.entities() if e.get('netname')}
    src = 'd' if 'DECOUPLED_LM' in b.raw['bspx'] else 's'
    for f in range(len(model)):
        tex = (b.tex_name(f) or '').lower()
        k = int(model[f])
        if w.q2 and tex.startswith('sky'):
            continue
        if tex.startswith('sky') or tex in UNLIT:
            if any((f, x) in sl for x in 'vsd'):
                ctx.violation('unlit', '%s: face %d of texture %s has a lightmap' % (what, f, tex), files)
                return
            continue
        if w.q2 and (f, src if (f, src) in sl else 'v') not in sl:
            ctx.violation('missing', '%s: face %d of texture %s has no lightmap: it will look fully bright' % (what, f, tex), files)
            return
        s = sl.get((f, src)) or sl.get((f, 'v'))
        if s is None:
            continue
        have = s.maps(data)
        av = [float(have[x].mean()) for x in s.styles]
        for i, x in enumerate(s.styles[1:]):
            if av[i + 1] > av[i] * (1.5 if rgb else 3.5) + 8:
                ctx.violation('order', '%s: face %d has styles %s with averages %s, the brightest comes first' % (what, f, s.styles, av), files)
                return
        ctx.stat('styles%d' % min(len(s.styles), 5), 1)
        if s.kind == 'd':
            u = float(what.split('-world_units_per_luxel ')[1].split()[0])
            lo, hi = s.lx.uv.min(0), s.lx.uv.max(0)
            wh = np.array([s.lx.w, s.lx.h])
            if (lo < -.01).any() or (hi > wh - 1 + .01).any() or (lo > 1.01).any() or (hi < wh - 2.01).any():
                ctx.violation('extent', '%s: face %d: decoupled lightmap %dx%d but the face lies at %s to %s of it' % (what, f, s.lx.w, s.lx.h, lo.tolist(), hi.tolist()), files)
                return
            st = np.linalg.norm(s.lx.inv[:, :2], axis=0)
            if (st < u * .999).any() or (st > u * 1.7321 + .01).any():
                ctx.violation('extent', '%s: face %d: luxels are %s apart' % (what, f, st.tolist()), files)
                return
        lx = s.lx
        if not lx.sure or abs(lx.det) < 1e-6:
            continue
        want, ok = M.face(lx, keys.get('*%d' % k, 0))
        if want is None or not ok.any():
            continue
        if k:
            T, Sx = np.mgrid[0:lx.h, 0:lx.w]
            c = b.contents_at(lx.world(Sx.ravel(), T.ravel())).reshape(ok.shape).astype(int)
            ok = ok & ~((c & 1) == 1 if w.q2 else c == -2)
        v = sl.get((f, 'v'))
        if s.kind != 'v' and v is not None and v.ofs != s.ofs and v.lx.exact:
            # the plain lightmap shows the same light, more coarsely or finely
            T, S = np.mgrid[0:v.lx.h, 0:v.lx.w]
            P = v.lx.world(S.ravel(), T.ravel())
            if s.kind == 'd':
                a = P @ np.linalg.inv(s.lx.inv.T) + s.lx.off - s.lx.n @ np.linalg.inv(s.lx.inv.T)
                c = a[:, :2]
                rad = 2.5 + 16 / float(what.split('-world_units_per_luxel ')[1].split()[0])
            else:
                c = np.stack([(v.lx.lo[0] + S.ravel()) * 16 / s.lx.scale - s.lx.lo[0], (v.lx.lo[1] + T.ravel()) * 16 / s.lx.scale - s.lx.lo[1]], 1)
                rad = 2.5 * max(1, 16 / s.lx.scale) + 1
            vm = v.maps(data)
            if v.styles != s.styles[:4]:
                ctx.violation('style', '%s: face %d has styles %s in the plain and %s in the extended lightmap' % (what, f, v.styles, s.styles), files)
                return
            for x in v.styles:
                g = vm[x].reshape(-1, vm[x].shape[2]).astype(float)
                h = have[x].astype(float)
                for i in range(len(c)):
                    x0, x1 = [int(np.clip(z, 0, s.lx.w - 1)) for z in (np.floor(c[i, 0] - rad), np.ceil(c[i, 0] + rad))]
                    y0, y1 = [int(np.clip(z, 0, s.lx.h - 1)) for z in (np.floor(c[i, 1] - rad), np.ceil(c[i, 1] + rad))]
                    if not ok[y0:y1 + 1, x0:x1 + 1].all():
                        continue
                    box = h[y0:y1 + 1, x0:x1 + 1].reshape(-1, h.shape[2])
                    ctx.ok(1)
                    ctx.stat('plain_luxels', 1)
                    if (g[i] < box.min(0) - 2).any() or (g[i] > box.max(0) + 2).any():
                        ctx.violation('plain', '%s: face %d (%s) style %d: plain luxel %d of %dx%d is %s, the %s lightmap %dx%d has %s to %s around there' % (
                            what, f, tex, x, i, v.lx.w, v.lx.h, g[i].tolist(), s.kind, s.lx.w, s.lx.h, box.min(0).tolist(), box.max(0).tolist()), files)
                        return
        r = compare(s, want, M.hi, ok, have, not rgb, extra)
        ctx.ok(int(ok.sum()))
        ctx.stat('luxels_' + mode, int(ok.sum()))
        if r:
            ctx.violation('value', '%s: face %d (texture %s, model %d, lightmap %s %dx%d) style %d luxel %d,%d is %s, wanted %s; %d luxels differ' % ((what, f, tex, k, s.kind, lx.w, lx.h) + r), files)
            return
    return True


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(FORMATS)[c % len(FORMATS)]
    game, args = FORMATS[fmt]
    w = room(r, game, 'grid' if r.random() < .6 else 'convex', sky=.2, nbrush=r.randint(1, 5))
    if not w.placed:
        return
    models(r, w, r.randint(0, 2))
    n = r.randint(2, 7)
    add_lights(r, w, w.q2, n, neg=0)
    if r.random() < .6:
        for i, e in enumerate(x for x in w.points if x.get('classname').startswith('light')):
            if not e.get('style') and not e.get('targetname'):
                e.kv.append(('style', str(i)))
    w.world.kv.append(('wad', d + '/t.wad'))
    scaled = r.random() < .3
    if scaled:
        for e in r.sample([w.world] + w.models, r.randint(1, 1 + len(w.models))):
            e.kv.append(('_lmscale', r.choice(['.5', '.25', '2', '.125'])))
    w.finish(r)
    q = qbsp(d, w, 'l%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp')]
    if tool_failed(ctx, q, fmt, args) or not os.path.exists(q.base + '.bsp'):
        return
    modes = ['shift', 'units', 'styles', 'plain']
    if not 'LMSHIFT' in bspfmt.load(q.base + '.bsp', fmt)['bspx']:
        scaled = False
    for step in range(2 if r.random() < .3 else 1):
        # once scaled, a file stays so
        mode = modes[r.choice([0, 0, 1, 1, 2, 3])] if step == 0 else r.choice(modes)
        if scaled and mode == 'units':
            # not together
            mode = 'plain'
        scaled |= mode == 'shift'
        largs, extra = [], 1
        if mode == 'shift':
            largs += ['-lmshift', str(r.choice([2, 3, 3, 4, 5, 6]))]
        elif mode == 'units':
            largs += ['-world_units_per_luxel', '%g' % r.choice([4, 5, 8, 8, 12.5, 16, 24, 40])]
        elif mode == 'styles':
            largs += ['-facestyles', '8']
        k = r.random()
        if k < .15:
            largs, extra = largs + ['-extra'], 2
        elif k < .2:
            largs, extra = largs + ['-extra4'], 4
        largs += ['-visapprox', 'none', '-bounce', '0']
        env = {'VP_SCHED': r.choice(['serial', 'reverse', 'shuffle:%d' % c, 'threads:4'])}
        l = light(d, q.base + '.bsp', largs, env=env)
        what = '%s light %s%s' % (fmt, ' '.join(largs), ' (again)' if step else '')
        if tool_failed(ctx, l, fmt, largs):
            return
        b = Bsp(q.base + '.bsp', fmt)
        if not judge(ctx, w, b, fmt, files, what, extra, mode):
            break
        ctx.ok(1, key=[fmt, extra, largs, len(b.L['faces']), len(b.L['lighting'])])
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp', 'light'])
    ctx.rule = 'distinct = (format, options, number of faces, bytes of lighting) of files whose lightmaps were all accounted for'
    total = ctx.n(240, 5000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        make_wad(d + '/t.wad', NAMES)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
