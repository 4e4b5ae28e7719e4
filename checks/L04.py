import os, shutil, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import tool_failed, cleanup
from lworld import *
from checks.Q04 import make_wad
from checks.L02 import add_lights, NAMES

GREY = ('bsp29', 'bsp2', 'bsp2rmq', 'hexen2')


def rd(p):
    return open(p, 'rb').read() if os.path.exists(p) else None


def head(ctx, raw, n, what, files):
    """body of a .lit or .lux"""
    if raw is None:
        ctx.violation('absent', '%s was not written' % what, files)
    elif raw[:8] != b'QLIT\1\0\0\0':
        ctx.violation('header', '%s starts with %r' % (what, raw[:8]), files)
    elif len(raw) != 8 + 3 * n:
        ctx.violation('size', '%s has %d bytes for %d samples' % (what, len(raw), n), files)
    else:
        return np.frombuffer(raw, np.uint8)[8:].reshape(-1, 3)


def differ(ctx, a, b, what, files, key='differ'):
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    ctx.ok(max(1, len(a)))
    if len(a) != len(b):
        ctx.violation('size', '%s: %d and %d bytes' % (what, len(a), len(b)), files)
        return True
    if (a != b).any():
        i = int(np.nonzero(a != b)[0][0])
        ctx.violation(key, '%s: byte %d is %d and %d; %d of %d differ' % (what, i, a[i], b[i], int((a != b).sum()), len(a)), files)
        return True
    return False


def directions(ctx, w, b, fmt, lit, lux, what, files):
    """every stored direction is a unit vector from the front; where one light shines alone it is the way to that light"""
    sl, bad = slots(b, fmt)
    if bad:
        ctx.violation(bad[0][0], '%s: %s' % (what, bad[0][1]), files)
        return
    M = Model(w, 1)
    mff, mnf = b.col('models', 'ff').astype(int), b.col('models', 'nf').astype(int)
    keys = {e.get('model'): e.get('netname') for e in b.entities() if e.get('netname')}
    model = np.repeat(np.arange(len(mff)), mnf)
    for (f, k), s in sl.items():
        d3 = s.maps(lux)
        for x in s.styles:
            v = (d3[x].astype(float) + .5) / 128 - 1
            L = np.linalg.norm(v, axis=2)
            # 255 stands for everything up to 1
            bad = (np.abs(L - 1) > .03)
            ctx.ok(L.size)
            if bad.any():
                y, c = [int(i[0]) for i in np.nonzero(bad)]
                ctx.violation('unit', '%s: face %d luxel %d,%d style %d direction %s has length %.3f' % (what, f, c, y, x, d3[x][y, c].tolist(), L[y, c]), files)
                return
        lx = s.lx
        if not lx.sure or abs(lx.det) < 1e-3:
            continue
        key = keys.get('*%d' % model[f], 0)
        want, ok = M.face(lx, key)
        if want is None or not ok.any():
            continue
        m = M.models.get(key)
        channel = m.channel if m is not None else 1
        T, S = np.mgrid[0:lx.h, 0:lx.w]
        P = lx.world(S.ravel().astype(float), T.ravel().astype(float))
        n = lx.n
        tv = b.tex_vecs(f)
        ax = [tv[0, :3] / np.linalg.norm(tv[0, :3]), -tv[1, :3] / np.linalg.norm(tv[1, :3]), n]
        # number of lights that could reach each luxel, by style; only where exactly one can
        cnt = np.zeros(len(P), int)
        dirs = np.zeros((len(P), 3))
        who = np.full(len(P), -1)
        for i, l in enumerate(M.lights):
            if not (l.channel & channel):
                continue
            c, doubt, u = l.at(P, n)
            use = [o for o in M.sol if (o.channel & l.shchannel) and (o.only is None or o.only == key)]
            bl = blocked(use, P, np.broadcast_to(l.o, (len(P), 3)))
            on = ((np.abs(c).max(1) > 0) | doubt) & (bl != 1)
            cnt += on
            sure = on & (bl == 0) & ~doubt & (np.abs(c).max(1) > 2)
            cnt += (on & ~sure) * 5
            # a light of negative strength points away
            dirs[sure], who[sure] = u[sure], i
        one = (cnt == 1) & ok.ravel()
        for x in s.styles:
            J = np.nonzero(one & np.array([w_ >= 0 and M.lights[w_].style == x for w_ in who]) & (s.maps(lit)[x].reshape(-1, 3).max(1) > 0))[0]
            if not len(J):
                continue
            loc = np.stack([dirs[J] @ a for a in ax], 1)
            loc /= np.linalg.norm(loc, axis=1)[:, None]
            g = (d3[x].reshape(-1, 3)[J].astype(float) + .5) / 128 - 1
            bad = (np.abs(g - loc) > .02).any(1)
            ctx.ok(len(J))
            ctx.stat('directions', len(J))
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                ctx.violation('direction', '%s: face %d luxel %d of %dx%d at %s style %d: direction %s, the light is at %s' % (
                    what, f, J[i], lx.w, lx.h, P[J[i]].round(2).tolist(), x, g[i].round(3).tolist(), loc[i].round(3).tolist()), files)
                return
    return True


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = (list(GREY) + ['q2bsp', 'hl'])[c % 6]
    game, args = FORMATS[fmt]
    w = room(r, game, 'grid' if r.random() < .6 else 'convex', sky=.2, nbrush=r.randint(1, 5))
    if not w.placed:
        return
    models(r, w, r.randint(0, 2))
    add_lights(r, w, w.q2, r.randint(1, 4), neg=0, styles=r.random() < .7)
    col = r.random() < .5
    for e in w.points:
        if not col:
            e.kv = [(k, v) for k, v in e.kv if k != '_color']
    colored = any(e.get('_color') and not (color(e.get('_color')) == 255).all() for e in w.points)
    w.world.kv.append(('wad', d + '/t.wad'))
    w.finish(r)
    q = qbsp(d, w, 'l%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp')]
    if tool_failed(ctx, q, fmt, args) or not os.path.exists(q.base + '.bsp'):
        return
    base = q.base
    shutil.copy(base + '.bsp', base + '.orig')
    common = ['-visapprox', 'none', '-bounce', '0']
    if r.random() < .2:
        common.append(r.choice(['-extra', '-extra4', '-soft']))
    if r.random() < .15:
        common += ['-lmshift', str(r.choice([3, 4]))]

    def run(args, fresh=True, keep=False):
        if fresh:
            shutil.copy(base + '.orig', base + '.bsp')
        if not keep:
            for e in ('.lit', '.lux'):
                if os.path.exists(base + e):
                    os.unlink(base + e)
        l = light(d, base + '.bsp', common + args)
        if tool_failed(ctx, l, fmt, common + args):
            return None
        return Bsp(base + '.bsp', fmt), rd(base + '.lit'), rd(base + '.lux'), '%s light %s' % (fmt, ' '.join(common + args))

    def done():
        for e in ('.orig', '.lit', '.lux'):
            if os.path.exists(base + e):
                os.unlink(base + e)
        cleanup(q)
    R = run(['-lit', '-lux'])
    if R is None:
        return
    b0, lit, lux, what = R
    if fmt not in GREY:
        # colored light is in the file itself
        if lit is not None or lux is not None or {'RGBLIGHTING', 'LIGHTINGDIR'} & set(b0.raw['bspx']):
            ctx.violation('spurious', '%s wrote companions of a file with colored light' % what, files)
        ctx.ok(1)
        return done()
    grey = np.frombuffer(bytes(b0.L['lighting']), np.uint8)
    if not len(grey):
        ctx.stat('unlit', 1)
        return done()
    lit, lux = head(ctx, lit, len(grey), what + ': .lit', files), head(ctx, lux, len(grey), what + ': .lux', files)
    if lit is None or lux is None:
        return
    if differ(ctx, grey, lit.max(1), what + ': grey light and the brightest component of the colored light', files, 'grey'):
        return
    if not colored and differ(ctx, lit[:, :1].repeat(3, 1), lit, what + ': white light', files, 'grey'):
        return
    if assigned_styles(w, b0):
        ctx.violation('style', '%s: %s' % (what, assigned_styles(w, b0)), files)
        return
    if '-soft' not in common and common[-1] not in ('-extra', '-extra4') and '-lmshift' not in common and not directions(ctx, w, b0, fmt, lit, lux, what, files):
        return
    ctx.stat('colored' if colored else 'white', 1)
    # only .lit, over the finished file
    k = r.random()
    todo = ['litonly', 'bspx', 'bspxonly', 'mixed', 'none', 'again', 'lit2']
    for kind in r.sample(todo, 3):
        if kind == 'litonly':
            run(['-lit', '-lux'])
            before = rd(base + '.bsp')
            R = run(['-litonly'] + ['-lux'] * (r.random() < .5), fresh=False)
            if R is None:
                return
            b, l2, x2, what = R
            if rd(base + '.bsp') != before:
                ctx.violation('litonly', '%s changed the .bsp' % what, files)
                return
            l2 = head(ctx, l2, len(grey), what + ': .lit', files)
            if l2 is None:
                return
            if '-lmshift' in common:
                ctx.ok(1)
                continue
            if differ(ctx, lit, l2, what + ': .lit and that of the normal run', files):
                return
            if '-lux' in what.split():
                x2 = head(ctx, x2, len(grey), what + ': .lux', files)
                if x2 is None or differ(ctx, lux, x2, what + ': .lux and that of the normal run', files):
                    return
        elif kind in ('bspx', 'bspxonly', 'mixed'):
            a = {'bspx': r.choice([['-bspx'], ['-bspxlit', '-bspxlux']]), 'bspxonly': ['-bspxonly'], 'mixed': ['-lit', '-lux', '-bspxlit', '-bspxlux']}[kind]
            R = run(a)
            if R is None:
                return
            b, l2, x2, what = R
            x = b.raw['bspx']
            if (l2 is None) != (kind != 'mixed') or (x2 is None) != (kind != 'mixed'):
                ctx.violation('spurious', '%s: .lit %s, .lux %s' % (what, l2 is not None, x2 is not None), files)
                return
            for name, ref in (('RGBLIGHTING', lit), ('LIGHTINGDIR', lux)):
                if name not in x:
                    ctx.violation('absent', '%s: no %s lump' % (what, name), files)
                    return
                v = np.frombuffer(x[name], np.uint8)
                if kind == 'bspxonly' and '-lmshift' in common:
                    continue
                if differ(ctx, ref, v, '%s: %s and the separate file' % (what, name), files):
                    return
            if kind == 'mixed' and (l2[8:] != lit.tobytes() or x2[8:] != lux.tobytes()):
                ctx.violation('differ', '%s: the .lit or .lux is another with BSPX lumps next to it' % what, files)
                return
            g2 = np.frombuffer(bytes(b.L['lighting']), np.uint8)
            if kind == 'bspxonly':
                if len(g2):
                    ctx.violation('novanilla', '%s left %d bytes of grey light' % (what, len(g2)), files)
                    return
            elif differ(ctx, grey, g2, what + ': grey light', files):
                return
            if kind != 'bspxonly' or '-lmshift' not in common:
                st = [np.stack([y.col('faces', 'st%d' % i) for i in range(4)] + [y.col('faces', 'lo')]) for y in (b0, b)]
                if differ(ctx, st[0], st[1], what + ': styles and offsets of faces', files):
                    return
        elif kind == 'lit2':
            if '-lmshift' in common:
                continue
            fresh = r.random() < .5
            shutil.copy(base + '.orig', base + '.bsp')
            if not fresh:
                run(['-lit'])
            before = rd(base + '.bsp')
            for e in ('.lit', '.lux'):
                if os.path.exists(base + e):
                    os.unlink(base + e)
            l = light(d, base + '.bsp', common + ['-lit2'])
            what = '%s light %s -lit2' % (fmt, ' '.join(common))
            if tool_failed(ctx, l, fmt, common):
                return
            raw, nf = rd(base + '.lit'), len(b0.L['faces'])
            if rd(base + '.bsp') != before:
                ctx.violation('lit2', '%s changed the .bsp' % what, files)
                return
            if raw is None or raw[:8] != b'QLIT\2\0\0\0' or struct.unpack('<II', raw[8:16]) != (nf, len(grey)) or len(raw) != 16 + 17 * nf + 6 * len(grey):
                ctx.violation('lit2', '%s: %s bytes, header %r; %d faces, %d samples' % (what, raw and len(raw), raw and raw[:16], nf, len(grey)), files)
                return
            v = np.frombuffer(raw, np.uint8)
            if differ(ctx, lit, v[16 + 17 * nf:16 + 17 * nf + 3 * len(grey)], what + ': colored light', files) or differ(ctx, lux, v[16 + 17 * nf + 3 * len(grey):], what + ': directions', files):
                return
            for f in range(nf):
                o, *rest = struct.unpack_from('<i4H2HB', raw, 16 + 17 * f)
                st = [int(b0.col('faces', 'st%d' % i)[f]) for i in range(4)]
                if o != int(b0.col('faces', 'lo')[f]) or [x if x != 65535 else 255 for x in rest[:4]] != st or (o >= 0 and rest[6] != 4):
                    ctx.violation('lit2', '%s: face %d: offset %d styles %s shift %d; in the .bsp offset %d styles %s' % (what, f, o, rest[:4], rest[6], b0.col('faces', 'lo')[f], st), files)
                    return
        elif kind == 'none':
            R = run([])
            if R is None:
                return
            b, l2, x2, what = R
            if (l2 is not None) != colored or x2 is not None:
                ctx.violation('spurious', '%s with %s lights: .lit %s, .lux %s' % (what, 'colored' if colored else 'white', l2 is not None, x2 is not None), files)
                return
            if l2 is not None:
                l2 = head(ctx, l2, len(grey), what + ': .lit', files)
                if l2 is None or differ(ctx, lit, l2, what + ': .lit', files):
                    return
            if differ(ctx, grey, np.frombuffer(bytes(b.L['lighting']), np.uint8), what + ': grey light', files):
                return
        else:
            # lumps of an earlier run do not survive
            if run(['-bspx']) is None:
                return
            R = run(['-lit'], fresh=False)
            if R is None:
                return
            b, l2, x2, what = R
            what += ' after -bspx'
            if {'RGBLIGHTING', 'LIGHTINGDIR'} & set(b.raw['bspx']):
                ctx.violation('stale', '%s: lumps of the earlier run are still there' % what, files)
                return
            l2 = head(ctx, l2, len(grey), what + ': .lit', files)
            if l2 is None or differ(ctx, lit, l2, what + ': .lit', files) or differ(ctx, grey, np.frombuffer(bytes(b.L['lighting']), np.uint8), what + ': grey light', files):
                return
        ctx.stat('mode_' + kind, 1)
        ctx.ok(1, key=[fmt, kind, common, len(grey)])
    done()


def check(ctx):
    vp.build('san', ['qbsp', 'light'])
    ctx.rule = 'distinct = (format, output options, common options, bytes of lighting) of files compared with their companions'
    total = ctx.n(160, 4000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        make_wad(d + '/t.wad', NAMES)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
