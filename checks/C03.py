import vp


def check(ctx):
    vp.build('san', ['h_bspu'])
    ctx.rule = 'distinct = row length / compressed length classes, map kind and cluster count classes'
    ctx.shards(vp.exe('san', 'h_bspu'), 'vis', ctx.n(20000, 400000))
