import os, shutil, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp, bspfmt
from qworld import *
from qjudge import tool_failed, cleanup
from lworld import *
from checks.Q04 import make_wad
from checks.L02 import add_lights, NAMES


def content(ctx, path, fmt, what, files):
    """what the lighting says, wherever it lies in the file"""
    b = Bsp(path + '.bsp', fmt)
    sl, bad = slots(b, fmt)
    if bad:
        ctx.violation(bad[0][0], '%s: %s' % (what, bad[0][1]), files)
        return
    ch = 3 if fmt in RGB else 1
    data = np.frombuffer(bytes(b.L['lighting']), np.uint8)
    out = {}
    side = {}
    for e in ('.lit', '.lux'):
        if os.path.exists(path + e):
            side[e] = np.frombuffer(open(path + e, 'rb').read(), np.uint8)[8:].reshape(-1, 3)
            os.unlink(path + e)
    for k, s in sl.items():
        n = s.n * len(s.styles)
        out[k] = (tuple(s.styles), data.reshape(-1, ch)[s.ofs:s.ofs + n].tobytes()) + tuple(v[s.ofs:s.ofs + n].tobytes() for v in side.values())
    rest = {k: (v if isinstance(v, bytes) else repr(v)) for k, v in b.L.items() if k not in ('lighting', 'faces')}
    rest.update({'x' + k: v for k, v in b.raw['bspx'].items() if k not in ('LMOFFSET', 'DECOUPLED_LM')})
    rest['sides'] = tuple(side)
    rest['size'] = len(data)
    st = [b.col('faces', c).tolist() for c in ('st0', 'st1', 'st2', 'st3', 'plane', 'ti', 'fe')]
    rest['faces'] = repr(st)
    return out, rest


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(FORMATS)[c % len(FORMATS)]
    game, args = FORMATS[fmt]
    w = room(r, game, 'grid' if r.random() < .6 else 'convex', sky=.3, nbrush=r.randint(1, 6))
    if not w.placed:
        return
    models(r, w, r.randint(0, 2))
    add_lights(r, w, w.q2, r.randint(1, 4), neg=.1)
    put = lambda e, k, v: e.kv.append((k, v))
    surf = r.random() < .6
    if surf:
        if w.q2:
            for b in w.brushes:
                for s in b.sides:
                    if r.random() < .2 and s.tex.startswith('wall'):
                        s.info = (s.info[0] if s.info else 0, (s.info[1] if s.info else 0) | 1, r.choice([100, 400, 1000]))
        p = free_point(r, w)
        if p is not None and r.random() < .7:
            w.points.append(Ent([('classname', 'light'), ('origin', '%g %g %g' % tuple(p)), ('light', '200'), ('_surface', r.choice(['wall1', 'wall2', 'sky1'])), ('_surface_offset', '4')]))
    for k, v in (('_sunlight', '150'), ('_sunlight2', '80'), ('_dirt', '1'), ('_bounce', '1'), ('_phong', '1')):
        if r.random() < .3:
            put(w.world, k, v)
    for m in w.models:
        if r.random() < .3:
            put(m, '_phong', '1')
    w.world.kv.append(('wad', d + '/t.wad'))
    w.finish(r)
    q = qbsp(d, w, 'l%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp')]
    if tool_failed(ctx, q, fmt, args) or not os.path.exists(q.base + '.bsp'):
        return
    base = q.base
    shutil.copy(base + '.bsp', base + '.orig')
    o = []
    if r.random() < .5:
        o += ['-bounce', str(r.choice([1, 1, 2]))]
    if r.random() < .3:
        o += ['-dirt']
    if r.random() < .2:
        o += [r.choice(['-extra', '-soft'])]
    if r.random() < .2:
        o += ['-lightgrid', '-lightgrid_dist', '64', '64', '64'][:r.choice([1, 5])]
    k = r.random()
    if k < .15:
        o += ['-lmshift', '3']
    elif k < .3:
        o += ['-world_units_per_luxel', '12']
    if r.random() < .5:
        o += ['-lit', '-lux']
    elif r.random() < .3:
        o += ['-wrnormals']
    ref = None
    runs = ['serial', 'reverse', 'shuffle:%d' % r.randint(1, 9999), 'threads:4:%d' % r.randint(1, 9999)]
    if r.random() < .3:
        runs.append('again')
    for sched in runs:
        if sched != 'again':
            shutil.copy(base + '.orig', base + '.bsp')
        l = light(d, base + '.bsp', o, env={'VP_SCHED': 'serial' if sched == 'again' else sched})
        what = '%s light %s, tasks %s' % (fmt, ' '.join(o), sched)
        if tool_failed(ctx, l, fmt, o):
            return
        R = content(ctx, base, fmt, what, files)
        if R is None:
            return
        if ref is None:
            ref = R
            continue
        A, B = ref, R
        ctx.ok(len(B[0]))
        ctx.stat('runs_' + sched.split(':')[0], 1)
        if set(A[0]) != set(B[0]):
            ctx.violation('faces', '%s: lightmaps of other faces than when serial: %s' % (what, sorted(set(A[0]) ^ set(B[0]))[:5]), files)
            return
        for k in A[0]:
            if A[0][k] != B[0][k]:
                a, b = A[0][k], B[0][k]
                n = [(i, [(x, p, q_) for x, (p, q_) in enumerate(zip(u, v)) if p != q_][:3]) for i, (u, v) in enumerate(zip(a[1:], b[1:])) if u != v]
                ctx.violation('light', '%s: face %d (%s): styles %s %s, first differences %s' % (what, k[0], k[1], a[0], b[0], n), files)
                return
        for k in A[1]:
            if A[1][k] != B[1].get(k):
                ctx.violation('lumps', '%s: lump %s differs from the serial run' % (what, k), files)
                return
    ctx.ok(1, key=[fmt, o, ref[1]['size']])
    os.unlink(base + '.orig')
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp', 'light'])
    ctx.rule = 'distinct = (format, options, bytes of lighting) of worlds lit under every schedule'
    total = ctx.n(120, 3000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        make_wad(d + '/t.wad', NAMES)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
