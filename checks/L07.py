import os, sys
import numpy as np
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
import vp
from qworld import *
from qjudge import tool_failed, cleanup
from lworld import *
from checks.Q04 import make_wad
from checks.L02 import add_lights, judge, NAMES


def rgbtext(r):
    return '%d %d %d' % tuple(r.randint(2, 255) for _ in range(3)) if r.random() < .6 else '%g %g %g' % tuple(r.choice([1, .5, .25, .75]) for _ in range(3))


def add_suns(r, w):
    W = w.world
    put = lambda k, v: W.kv.append((k, v))
    ang = lambda: '%d %d 0' % (r.choice([r.randint(0, 359), 0, 90]), r.choice([-90, -r.randint(20, 89), -r.randint(1, 89), r.randint(-89, 89)]))
    if r.random() < .6:
        put('_sunlight', str(r.randint(20, 300)))
        if r.random() < .8:
            put(r.choice(['_sunlight_mangle', '_sun_mangle']), ang())
        if r.random() < .4:
            put('_sunlight_color', rgbtext(r))
    if r.random() < .4:
        put('_sun2', str(r.randint(20, 200)))
        if r.random() < .8:
            put('_sun2_mangle', ang())
        if r.random() < .4:
            put('_sun2_color', rgbtext(r))
    for k in ('_sunlight2', '_sunlight3'):
        if r.random() < .25:
            put(k, str(r.randint(50, 300)))
            if r.random() < .4:
                put(k + '_color', rgbtext(r))
    if r.random() < .3:
        p = free_point(r, w, margin=8)
        if p is not None:
            e = Ent([('classname', 'light'), ('origin', '%g %g %g' % tuple(p)), ('light', str(r.randint(20, 250))), (r.choice(['_sun', '_sun', '_sunlight2', '_sunlight3']), '1')])
            if e.kv[-1][0] == '_sun':
                if r.random() < .5:
                    e.kv.append(('mangle', ang()))
                else:
                    e.kv.append(('target', 'suntarget'))
                    o = p + np.array([r.randint(-200, 200), r.randint(-200, 200), -r.randint(20, 300)])
                    w.points.append(Ent([('classname', 'info_null'), ('targetname', 'suntarget'), ('origin', '%g %g %g' % tuple(o))]))
            if r.random() < .4:
                e.kv.append(('_color', rgbtext(r)))
            if r.random() < .3:
                e.kv.append(('style', str(r.choice([1, 3]))))
            if r.random() < .3:
                e.kv.append(('_anglescale', '%g' % r.choice([0, 1, .3])))
            w.points.append(e)


def add_globals(r, w):
    W = w.world
    put = lambda e, k, v: e.kv.append((k, v))
    q = .25 if w.q2 else 40
    if r.random() < .5:
        put(W, r.choice(['_minlight', 'light', '_light']), '%g' % (r.choice([.25, .5, .1, 1, .8]) * q * 2))
        if r.random() < .5:
            put(W, r.choice(['_minlight_color', '_mincolor']), rgbtext(r))
    if r.random() < .3:
        put(W, '_addmin', '1')
    if r.random() < .4 and not w.q2:
        # Quake II: world faces and entity faces take it in different units
        put(W, '_maxlight', str(r.randint(20, 200)))
    if r.random() < .3:
        put(W, '_gamma', '%g' % r.choice([2, .5, 1.5, .8]))
    for m in w.models:
        if r.random() < .4:
            put(m, '_minlight', '%g' % (r.choice([0, .25, .5, 2, 1]) * q))
        if r.random() < .3:
            put(m, r.choice(['_minlight_color', '_mincolor']), rgbtext(r))
        if r.random() < .25:
            put(m, '_maxlight', '%g' % (r.randint(20, 200) / (128 if w.q2 else 1)))
        if r.random() < .2:
            put(m, '_lightignore', '1')
    for i in range(r.choice([0, 0, 1, 2])):
        p = free_point(r, w, margin=8)
        if p is not None:
            e = Ent([('classname', 'light'), ('origin', '%g %g %g' % tuple(p)), ('light', str(r.randint(5, 120))), ('delay', '4')])
            if r.random() < .5:
                put(e, '_color', rgbtext(r))
            if r.random() < .3:
                put(e, 'style', '4')
            w.points.append(e)


def one(ctx, d, c):
    r = ctx.rng('w', c)
    fmt = list(FORMATS)[c % len(FORMATS)]
    game, args = FORMATS[fmt]
    w = room(r, game, 'grid' if r.random() < .6 else 'convex', sky=.8)
    if not w.placed:
        return
    models(r, w, r.randint(0, 3))
    # keeps luxels off the grid: axial rays exactly along the edge between two triangles may slip through (Embree's default mode)
    for b in w.brushes + [x for m in w.models for x in m.wb]:
        for s in b.sides:
            s.sh = (3.3, 5.7)
    add_lights(r, w, w.q2, r.choice([0, 0, 1, 2]))
    if r.random() < .7:
        add_suns(r, w)
    if r.random() < .6:
        add_globals(r, w)
    w.world.kv.append(('wad', d + '/t.wad'))
    w.finish(r)
    q = qbsp(d, w, 'l%d' % c, args)
    files = [q.base + e for e in ('.map', '.bsp')]
    if tool_failed(ctx, q, fmt, args) or not os.path.exists(q.base + '.bsp'):
        return
    largs, extra, samples = [], 1, 64
    if r.random() < .2:
        largs, extra = ['-extra'], 2
    if r.random() < .3:
        samples = r.choice([8, 16, 30, 100])
        largs += ['-sunsamples', str(samples)]
    largs += ['-visapprox', 'none', '-bounce', '0']
    if r.random() < .3:
        largs += ['-threads', '4']
    l = light(d, q.base + '.bsp', largs)
    what = '%s light %s' % (fmt, ' '.join(largs))
    if not tool_failed(ctx, l, fmt, largs):
        b = Bsp(q.base + '.bsp', fmt)
        if judge(ctx, w, b, fmt, files, what, extra, samples=samples):
            ctx.ok(1, key=[fmt, extra, len(b.L['faces']), len(b.L['lighting'])])
            ctx.stat('suns', 1 if any(k.startswith('_sun') for k, v in w.world.kv) else 0)
    cleanup(q)


def check(ctx):
    vp.build('san', ['qbsp', 'light'])
    ctx.rule = 'distinct = (format, oversampling, number of faces, bytes of lighting) of worlds whose every certain luxel was compared'
    total = ctx.n(320, 6000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        make_wad(d + '/t.wad', NAMES)
        for c in range(s, total, 8):
            one(ctx, d, (c // 8) + (c % 8) * (total // 8 + 1))
    ctx.fork(shard, range(8))
