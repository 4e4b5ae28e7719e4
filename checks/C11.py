import vp


def check(ctx):
    vp.build('san', ['h_bspu'])
    ctx.rule = 'distinct = (query kind, tree size class, whether the oracle was certain)'
    ctx.shards(vp.exe('san', 'h_bspu'), 'query', ctx.n(24000, 500000))
