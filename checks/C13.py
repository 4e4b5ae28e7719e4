import os
import vp, bspfmt, bspgen
import importlib.util
_s = importlib.util.spec_from_file_location('c01', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'C01.py'))
_c01 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_c01)


def check(ctx):
    vp.build('san', ['h_hostile', 'h_vis', 'h_img', 'h_fs'])
    ctx.rule = 'distinct = (input kind, damage, accepted or the reason of the refusal)'
    d = ctx.dir('base')
    r = ctx.rng('base')
    for c in range(72):
        fmt = list(bspfmt.FORMATS)[c % len(bspfmt.FORMATS)]
        f, _ = bspgen.coherent(r, fmt)
        if r.random() < .5:
            f['bspx']['BRUSHLIST'] = _c01.brushlist(r)
        open('%s/%s-%d.bsp' % (d, fmt, c), 'wb').write(bspfmt.encode(f))
    e = vp.exe('san', 'h_hostile')
    ctx.shards(e, 'bsp', ctx.n(40000, 1200000), extra=[d])
    ctx.shards(e, 'map', ctx.n(60000, 2000000))
    ctx.shards(e, 'json', ctx.n(8000, 200000))
    ctx.shards(vp.exe('san', 'h_vis'), 'damage', ctx.n(4000, 80000))
    ctx.shards(vp.exe('san', 'h_img'), 'hostile', ctx.n(4000, 80000))
    ctx.shards(vp.exe('san', 'h_fs'), 'hostile', ctx.n(4000, 80000))
