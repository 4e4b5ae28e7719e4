import vp


def check(ctx):
    vp.build('san', ['h_fs'])
    ctx.rule = 'distinct = (operation, where it was found, search preference, directories and archives registered), damage kinds, game search path set-ups'
    e = vp.exe('san', 'h_fs')
    ctx.shards(e, 'model', ctx.n(8000, 160000))
    ctx.shards(e, 'game', ctx.n(4000, 80000))
    ctx.shards(e, 'hostile', ctx.n(8000, 160000))
