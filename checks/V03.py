import vp


def check(ctx):
    vp.build('san', ['h_vis'])
    ctx.rule = 'distinct = (schedule kind, world shape, log2 of cluster count)'
    ctx.shards(vp.exe('san', 'h_vis'), 'sched', ctx.n(1600, 30000), timeout=3000)
