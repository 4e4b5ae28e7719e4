import vp


def check(ctx):
    vp.build('san', ['h_vis'])
    ctx.rule = 'distinct = (world shape, format, portal file flavour, test level, log2 of cluster count)'
    ctx.shards(vp.exe('san', 'h_vis'), 'rows', ctx.n(4000, 160000), timeout=3000)
