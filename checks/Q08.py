import math, os, re, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt, qmap
from qworld import *
from qjudge import *
from checks.Q04 import make_wad

BASE = [((0, 0, 1), (1, 0, 0), (0, -1, 0)), ((0, 0, -1), (1, 0, 0), (0, -1, 0)), ((1, 0, 0), (0, 1, 0), (0, 0, -1)),
        ((-1, 0, 0), (0, 1, 0), (0, 0, -1)), ((0, 1, 0), (1, 0, 0), (0, 0, -1)), ((0, -1, 0), (1, 0, 0), (0, 0, -1))]
HIDDEN = ('skip', 'clip', 'hint', 'hintskip', 'mclip', 'origin')
TEXSIZE = {}
SIZES = {'q2': False}    # Quake II does not load the .wad: every texture has the default size


def side_vecs(s):
    """2x4 texture vectors of a side in world space; None when the format leaves a choice"""
    n, d = s.plane()
    if s.fmt == 'v':
        return np.array([[*(np.array(s.ax[i]) / s.sc[i]), s.sh[i]] for i in range(2)])
    if s.fmt == 'q':
        dots = sorted(((n @ np.array(b[0], float)), i) for i, b in enumerate(BASE))
        if dots[-1][0] - dots[-2][0] < 1e-3:
            return None
        _, xv, yv = BASE[dots[-1][1]]
        v = np.array([xv, yv], float)
        sv, tv = int(np.nonzero(v[0])[0][0]), int(np.nonzero(v[1])[0][0])
        a = math.radians(s.rot)
        out = v.copy()
        for i in range(2):
            out[i, sv] = math.cos(a) * v[i, sv] - math.sin(a) * v[i, tv]
            out[i, tv] = math.sin(a) * v[i, sv] + math.cos(a) * v[i, tv]
        return np.array([[*(out[i] / (s.sc[i] or 1)), s.sh[i]] for i in range(2)])
    if s.fmt in ('e1', 'e2'):
        p = [np.array(x, float) for x in s.p]
        a, b = (p[2] - p[0]) / 128, (p[1] - p[0]) / 128
        if s.fmt == 'e2':
            a, b = b, a
        m = np.array([[a @ a, a @ b], [a @ b, b @ b]])
        v = np.linalg.solve(m, np.array([a, b]))
        v[1] = -v[1]
        return np.concatenate([v, -(v @ p[0])[:, None]], 1)
    if s.fmt == 'bp':
        x = np.where(np.abs(n) < 1e-6, 0, n)
        ry, rz = -math.atan2(x[2], math.hypot(x[0], x[1])), math.atan2(x[1], x[0])
        tx = np.array([-math.sin(rz), math.cos(rz), 0])
        ty = np.array([-math.sin(ry) * math.cos(rz), -math.sin(ry) * math.sin(rz), -math.cos(ry)])
        w = (64, 64) if SIZES['q2'] else TEXSIZE.get(s.tex, (64, 64))
        return np.array([[*(w[i] * (s.ax[i][0] * tx + s.ax[i][1] * ty)), w[i] * s.ax[i][2]] for i in range(2)])


def align(r, s, fmt):
    """random alignment that is neither degenerate nor extreme"""
    s.fmt = fmt
    n = s.plane()[0]
    s.sh = (r.choice([0, r.randint(-300, 300), r.uniform(-64, 64)]), r.choice([0, r.randint(-300, 300), 12.5]))
    s.rot = r.choice([0, 0, 90, -45, 180, r.uniform(-360, 360)])
    s.sc = (r.choice([1, 1, -1, .5, 2, .25, r.uniform(.3, 3)]), r.choice([1, 1, -1, .5, 2, r.uniform(.3, 3)]))
    if fmt in ('v', 'bp'):
        a = np.cross(n, [r.gauss(0, 1) for _ in range(3)])
        a /= np.linalg.norm(a)
        b = np.cross(n, a)
        t = r.uniform(-.5, .5) if r.random() < .3 else 0
        if fmt == 'v':
            s.ax = [[float(x) for x in a], [float(x) for x in b + t * a]]
        else:
            g = r.uniform(0, 6.3)
            k, l = r.choice([1, -1]) * r.uniform(.5, 2) / 64, r.uniform(.5, 2) / 64
            s.ax = [[k * math.cos(g), k * math.sin(g), r.uniform(-4, 4)], [-l * math.sin(g), l * math.cos(g), r.uniform(-4, 4)]]
    if fmt in ('e1', 'e2'):
        # the three points say it all: move them on their plane
        c = np.array(s.p[1], float)
        u = np.cross(n, np.eye(3)[int(np.abs(n).argmin())])
        u /= np.linalg.norm(u)
        v = np.cross(n, u)
        g, l, m = r.uniform(0, 6.3), r.uniform(64, 256), r.uniform(64, 256)
        g2 = g + math.pi / 2 + r.choice([0, 0, r.uniform(-.5, .5)])
        p1 = c + l * (math.cos(g) * u + math.sin(g) * v)
        p2 = c + m * (math.cos(g2) * u + math.sin(g2) * v)
        q = [tuple(c), tuple(p1), tuple(p2)]
        t = Side(q, s.tex)
        if t.plane()[0] @ n < 0:
            q = [q[0], q[2], q[1]]
        s.p = q


def side_text(s):
    if s.fmt != 'bp':
        return s.text()
    return ' '.join('( %.17g %.17g %.17g )' % tuple(q) for q in s.p) + ' ( ' + ' '.join('( %.17g %.17g %.17g )' % tuple(a) for a in s.ax) + ' ) ' + s.tex + ' %d %d %d' % tuple(s.info or (0, 0, 0))


def text(w, fmt):
    o = ''
    for e in w.entlist:
        o += '{\n' + ''.join('"%s" "%s"\n' % kv for kv in e.kv)
        for b in e.brushes:
            o += '{\n' + ('brushDef\n{\n' if fmt == 'bp' else '') + ''.join(side_text(s) + '\n' for s in b) + ('}\n' if fmt == 'bp' else '') + '}\n'
        o += '}\n'
    return o


def parse_bp(data):
    """entities of a converted brush-primitives map"""
    ents, cur, brush, depth = [], None, None, 0
    for raw in data.decode('latin-1').split('\n'):
        l = raw.strip()
        if not l or l == 'brushDef':
            continue
        if l == '{':
            depth += 1
            if depth == 1:
                cur = Ent()
            elif depth == 2:
                brush = []
        elif l == '}':
            depth -= 1
            if depth == 1:
                cur.brushes.append(brush)
            elif depth == 0:
                ents.append(cur)
        elif l.startswith('"'):
            m = re.match(r'"(.*?)"\s+"(.*)"$', l)
            cur.kv.append((m.group(1), m.group(2)))
        else:
            t = l.split()
            p = [tuple(float(x) for x in t[5 * i + 1:5 * i + 4]) for i in range(3)]
            s = Side(p, t[27], 'bp')
            s.ax = [[float(x) for x in t[17:20]], [float(x) for x in t[22:25]]]
            s.info = [int(x) for x in t[28:31]]
            brush.append(s)
    assert depth == 0
    return ents


def judge_faces(ctx, w, b, files, what, fmt):
    mff, mnf = b.col('models', 'ff').astype(int), b.col('models', 'nf').astype(int)
    mods = [(None, w.brushes, np.zeros(3))]
    ents = [e for e in b.entities() if e.get('model').startswith('*')]
    bents = [e for e in w.entlist if getattr(e, 'wb', None)]
    if len(ents) != len(bents):
        ctx.violation('models', '%s: %d models, %d brush entities' % (what, len(ents), len(bents)), files)
        return
    for e, m in zip(ents, bents):
        o = np.array(m.center) if m.center is not None else np.zeros(3)
        if m.center is not None and np.abs(np.array([float(x) for x in (e.get('origin') or '0 0 0').split()]) - o).max() > .01:
            ctx.violation('origin', '%s: entity with an origin brush around %s got origin "%s"' % (what, o, e.get('origin')), files)
            return
        mods.append((int(e.get('model')[1:]), m.wb, o))
    q2 = w.q2
    for k, wbs, o in mods:
        k = k or 0
        sides = [(s, *s.plane(), x) for x in wbs for s in x.sides if s.tex.lower() not in HIDDEN]
        if not sides:
            continue
        N = np.array([s[1] for s in sides])
        D = np.array([s[2] for s in sides])
        for f in range(mff[k], mff[k] + mnf[k]):
            P = b.face_poly(f) + o
            n, d = b.face_plane(f)
            d = d + n @ o
            c = P.mean(0)
            got = b.tex_vecs(f)
            tex = b.tex_name(f)
            uv = (P - o) @ got[:, :3].T + got[:, 3]
            near = (np.abs(N @ n) > .9999) & (np.abs(N @ c - D) < .3)
            seen, bestd, skip = 0, 1e9, False
            for i in np.nonzero(near)[0]:
                s, _, _, x = sides[i]
                if tex is not None and s.tex.lower() != tex.lower():
                    continue
                if not x.inside(c[None], -.3)[0]:
                    continue
                v = side_vecs(s)
                if v is None:
                    skip = True
                    break
                seen += 1
                want = P @ v[:, :3].T + v[:, 3]
                # the compiler rounds coefficients that are within 1e-4 of an integer
                e = float(((np.abs(uv - want) - 1.1e-4 * np.abs(P).sum(1)[:, None]) / (1 + np.abs(want) * 1e-3)).max())
                if e < bestd:
                    bestd, ws, wv = e, s, v
                if q2 and e < .02:
                    ti = b.L['texinfo'][int(b.col('faces', 'ti')[f])]
                    sp = b.spec['texinfo'][1]
                    fl, val = ti[sp.index('flags')], ti[sp.index('value')]
                    if fl == (s.info or (0, 0, 0))[1] and val == (s.info or (0, 0, 0))[2]:
                        bestd = 0
                        break
                    bestd = min(bestd, 1e9)
            if skip:
                continue
            if not seen:
                ctx.stat('no_side', 1)
                continue
            ctx.ok(len(P))
            ctx.stat('faces_' + fmt, 1)
            if bestd > .02:
                ctx.violation('vectors', '%s: face %d (model %d, texture %s, at %s, plane %s) has vectors %s, its brush side says %s (%s)' % (
                    what, f, k, tex, c.round(2), n.round(3), got.round(4).tolist(), wv.round(4).tolist(), side_text(ws)), files)
                return
            if q2 and bestd != 0:
                ctx.violation('surface', '%s: face %d has surface flags %s value %s, its brush side says %s' % (what, f, fl, val, side_text(ws)), files)
                return


def judge_convert(ctx, w, src, path, to, files, what):
    data = open(path, 'rb').read()
    try:
        ents = parse_bp(data) if to == 'bp' else qmap.parse(data)
    except Exception as e:
        ctx.violation('convert-syntax', '%s: converted map unreadable: %r' % (what, e), files)
        return
    if len(ents) != len(w.entlist):
        ctx.violation('convert-entities', '%s: %d entities became %d' % (what, len(w.entlist), len(ents)), files)
        return
    for e, g in zip(w.entlist, ents):
        if e.kv != g.kv and not getattr(e, 'center', None) is not None:
            ctx.violation('convert-keys', '%s: keys %s became %s' % (what, e.kv, g.kv), files)
            return
        sb = [b for b in e.brushes if b[0].tex != 'origin']
        gb = [b for b in g.brushes if b[0].tex != 'origin']
        if len(sb) != len(gb):
            ctx.violation('convert-brushes', '%s: entity %s had %d brushes, has %d' % (what, e.get('classname'), len(sb), len(gb)), files)
            return
        o = np.array(e.center) if getattr(e, 'center', None) is not None else None
        for x, y in zip(sb, gb):
            left = list(y)
            for s in x:
                n, d = s.plane()
                m = [t for t in left if t.plane()[0] @ n > 1 - 1e-7 and abs(t.plane()[1] - d) < .02]
                if not m:
                    ctx.violation('convert-side', '%s: side %s is gone, left %s' % (what, side_text(s), [side_text(t) for t in left]), files)
                    return
                t = m[0]
                left.remove(t)
                if t.tex != s.tex:
                    ctx.violation('convert-texture', '%s: %s became %s' % (what, side_text(s), side_text(t)), files)
                    return
                if (s.info or (0, 0, 0)) != tuple(t.info or (0, 0, 0)) and w.q2:
                    ctx.violation('convert-info', '%s: %s became %s' % (what, side_text(s), side_text(t)), files)
                    return
                if s.tex.lower() in HIDDEN or (w.q2 and s.info and s.info[1] & (128 | 256 | 512)):
                    continue
                a, c = side_vecs(s), side_vecs(t)
                if a is None or c is None:
                    continue
                P = np.array(s.p, float)
                A, C = P @ a[:, :3].T + a[:, 3], P @ c[:, :3].T + c[:, 3]
                ctx.ok(3)
                ctx.stat('converted_sides', 1)
                if to in ('quake', 'quake2'):
                    # large shifts are reduced by whole textures
                    z = np.array((64, 64) if SIZES['q2'] else TEXSIZE.get(s.tex, (64, 64)), float)
                    C = C + np.round((A - C).mean(0) / z) * z
                if (np.abs(A - C) / (1 + np.abs(A) * 1e-3)).max() > .3:
                    ctx.violation('convert-vectors', '%s: alignment changed: %s became %s: coordinates %s vs %s' % (what, side_text(s), side_text(t), A.round(3).tolist(), C.round(3).tolist()), files)
                    return


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(GAMES)[c % len(GAMES)]
    game, args = GAMES[fmt]
    SIZES['q2'] = GAMES[fmt][0] == 'q2'
    w = gen(r, game, 'convex' if r.random() < .4 else 'grid', leak=.1, drop=('super',))
    if not w.placed:
        return
    w.world.kv.append(('wad', d + '/t.wad'))
    mapfmt = r.choice(['q', 'q', 'v', 'v', 'e', 'bp'])
    for e in w.models:
        e.center = None
        if r.random() < .5:
            lo = np.array([8 * r.randint(-20, 20) for _ in range(3)], float)
            e.center = list(lo + 8)
            sd = box_sides(list(lo), list(lo + 16), 'origin', (0x1000000, 0, 0) if w.q2 else None)
            e.brushes.append(sd)
    for e in w.entlist:
        for bsd in e.brushes:
            for s in bsd:
                # the //TX comment and the surface numbers exclude each other
                align(r, s, mapfmt if mapfmt != 'e' else r.choice(['e1', 'e2']) if not s.info else 'q')
                if w.q2 and s.info and s.tex.startswith('wall') and r.random() < .5:
                    s.info = (s.info[0], s.info[1] | r.choice([0, 1, 2]), r.choice([0, 100, 250]))
    for x in w.brushes + [b for m in w.models for b in m.wb]:
        x.pl = [s.plane() for s in x.sides]
    args = args + [o for o in options(r) if o != '-notex']
    if '-oldaxis' in args:
        i = args.index('-oldaxis')
        args = args[:i] + args[i + 2:]
    to = r.choice(['quake2' if w.q2 else 'quake', 'valve', 'bp']) if r.random() < .5 else None
    if to in ('quake', 'quake2') and mapfmt != 'q':
        to = 'valve'
    txt = text(w, mapfmt)
    q = qbsp(d, w, 't%d' % c, args, text=txt)
    files = [q.base + e for e in ('.map', '.bsp')]
    what = '%s %s %s map' % (fmt, ' '.join(args), mapfmt)
    if not tool_failed(ctx, q, fmt, args):
        b = Bsp(q.base + '.bsp', fmt)
        judge_faces(ctx, w, b, files, what, mapfmt)
        ctx.ok(1, key=[fmt, mapfmt, len(b.L['texinfo'])])
        if to:
            q2 = qbsp(d, w, 't%d' % c, args + ['-convert', to], text=txt)
            cv = q.base + '-%s.map' % to
            if not tool_failed(ctx, q2, fmt, args + ['-convert', to]):
                if not os.path.exists(cv):
                    ctx.violation('convert-none', '%s -convert %s wrote no map' % (what, to), files)
                else:
                    judge_convert(ctx, w, txt, cv, to, [files[0], cv], what + ' -convert ' + to)
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp'])
    ctx.rule = 'distinct = (format, alignment format, number of texinfos) of compiled worlds whose every face was compared with its brush side'
    total = ctx.n(480, 8000)
    names = [x + str(i) for x in ('wall', 'sky', '*water', '*slime', '*lava', 'det', '{fence', 'dwall', 'ill') for i in (1, 2, 3)] + ['clip', 'skip', 'hint', 'hintskip']

    def shard(s):
        d = ctx.dir('s%d' % s)
        make_wad(d + '/t.wad', names)
        for n in names:
            TEXSIZE[n] = (16, 16)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
