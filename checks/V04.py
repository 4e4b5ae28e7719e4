import vp


def check(ctx):
    vp.build('san', ['h_vis'])
    ctx.rule = 'distinct = (state files left by the kill, threads or serial, world shape)'
    ctx.shards(vp.exe('san', 'h_vis'), 'resume', ctx.n(600, 12000), timeout=3000)
    ctx.shards(vp.exe('san', 'h_vis'), 'stale', ctx.n(400, 8000), timeout=3000)
