import vp


def check(ctx):
    vp.build('san', ['h_set'])
    ctx.rule = 'distinct = (command line: rejected?, options, positional arguments) and (key operation: kind of setting, source, batch?)'
    ctx.shards(vp.exe('san', 'h_set'), 'ops', ctx.n(60000, 600000))
