import vp


def check(ctx):
    vp.build('san', ['h_geom', 'h_visclip'])
    ctx.rule = 'distinct = (storage, cut kind, front/back/on vertex counts, epsilon) classes, storage-operation classes and dice sizes seen'
    ctx.shards(vp.exe('san', 'h_geom'), 'poly', ctx.n(16000, 400000))
    ctx.shards(vp.exe('san', 'h_visclip'), 'clip', ctx.n(40000, 1000000))
