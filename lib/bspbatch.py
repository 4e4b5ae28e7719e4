"""Run the real reader/converter/writer over a batch of (file, chain) jobs."""
import os, re
import vp, bspfmt


def run_batch(ctx, name, jobs):
    """jobs: list of (input path, output path, chain).  -> list of (version detected, result) aligned with jobs (None = not reached)"""
    d = ctx.dir(name)
    lst = os.path.join(d, 'batch.txt')
    with open(lst, 'w') as h:
        for i, o, c in jobs:
            h.write('%s %s %s\n' % (i, o, c))
    r = vp.run([vp.exe('san', 'h_bsp'), lst], timeout=600)
    out = [None] * len(jobs)
    for m in re.finditer(r'^RESULT (\d+) (\S+) (.*)$', r.out, re.M):
        out[int(m.group(1))] = (m.group(2), m.group(3))
    if r.timed_out:
        raise vp.Broken('batch timed out')
    if r.crashed or 'HARNESS-DONE' not in r.out:
        k = next((i for i, x in enumerate(out) if x is None), -1)
        ctx.violation('crash:' + r.site(), 'reader/writer died on %s\n%s\n%s' % (jobs[k], r.sanitizer, r.out[-1500:]), files=[jobs[k][0]])
    return out
