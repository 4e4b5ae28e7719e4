import vp


def check(ctx):
    vp.build('san', ['h_bspu'])
    ctx.rule = 'distinct = (axis-aligned?, extent class, lightmap scale)'
    ctx.shards(vp.exe('san', 'h_bspu'), 'lm', ctx.n(60000, 600000))
