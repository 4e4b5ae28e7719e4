import vp


def check(ctx):
    vp.build('san', ['h_vis'])
    ctx.rule = 'distinct = (world shape, number of clusters on the sight line; format, portal file flavour, test level, log2 of cluster count)'
    ctx.shards(vp.exe('san', 'h_vis'), 'sight', ctx.n(2600, 60000), timeout=3000)
