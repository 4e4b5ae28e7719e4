import vp


def check(ctx):
    vp.build('san', ['h_img'])
    ctx.rule = 'distinct = (image format, size class, palette kind, alpha, metadata sources present, where the texture was found), damage kinds'
    e = vp.exe('san', 'h_img')
    ctx.shards(e, 'mem', ctx.n(4000, 80000))
    ctx.shards(e, 'load', ctx.n(1600, 32000))
    ctx.shards(e, 'hostile', ctx.n(8000, 160000))
