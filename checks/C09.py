import vp


def check(ctx):
    vp.build('san', ['h_vec'])
    ctx.rule = 'distinct = scale/shape/containment classes of the operands actually evaluated'
    ctx.shards(vp.exe('san', 'h_vec'), 'vec', ctx.n(60000, 1500000))
