import vp


def check(ctx):
    vp.build('san', ['h_text'])
    ctx.rule = 'distinct = entity counts x text sizes x escape classes of the texts parsed'
    ctx.shards(vp.exe('san', 'h_text'), 'ent', ctx.n(8000, 200000))
