import os, struct
import vp, bspfmt, bspbatch


def check(ctx):
    vp.build('san', ['h_bsp'])
    ctx.rule = 'distinct = (source, chain of formats, outcome converted|refused, field that forced refusal)'
    ctx.assumptions = ['lib/bspfmt.py encodes/decodes the published container layouts and knows the range of each field']
    total = ctx.n(12000, 120000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        jobs, want = [], []
        for c in range(s, total, 8):
            r = ctx.rng('f', c)
            fam = r.choice([bspfmt.Q1FAM, bspfmt.Q1FAM, bspfmt.H2FAM, bspfmt.Q2FAM, bspfmt.Q2FAM])
            if fam is bspfmt.Q1FAM and r.random() < .2:
                fmt, chain = r.choice(fam), [r.choice(bspfmt.H2FAM)]
            else:
                fmt = r.choice(fam)
                chain = [r.choice(fam) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            f = bspfmt.random_file(r, fmt, small=True if r.random() < .6 else False)
            if r.random() < .5:  # a single out-of-range field among otherwise small values
                f = bspfmt.random_file(r, fmt, small=True)
                nm = r.choice(['nodes', 'faces', 'leafs', 'leaffaces', 'edges'] + (['leafbrushes', 'brushsides'] if fmt in bspfmt.Q2FAM else ['clipnodes']))
                k = dict(bspfmt.FORMATS[fmt][2])[nm]
                rows = f['lumps'][nm]
                if rows and nm:
                    i = r.randrange(len(rows))
                    j = r.randrange(len(k[1]))
                    t = k[2][j]
                    n = k[1][j]
                    if t == 'f':
                        v = r.choice([32767.0, 32767.5, 32768.0, -32768.0, -32768.5, -32769.0, 32766.25, 1e9])
                    elif n.startswith('ckids'):
                        v = r.choice([0xfff0, 0xfff1, 0x10000, -15, -16, -1, 65535]) & (0xffff if t == 'H' else -1)
                    else:
                        lo, hi = bspfmt.RANGE[t]
                        v = r.choice([x for x in (32767, 32768, 65535, 65536, 40000, -32768, -32769, -1, hi, lo) if lo <= x <= hi])
                    if not (nm == 'faces' and n == 'ne' and v < 0):
                        rows[i] = rows[i][:j] + (v,) + rows[i][j + 1:]
            p, o = '%s/%d.bsp' % (d, c), '%s/%d.out' % (d, c)
            open(p, 'wb').write(bspfmt.encode(f))
            exp, why = f, ''
            try:
                for to in chain:
                    exp = bspfmt.convert(exp, to)
            except bspfmt.Refused as e:
                exp, why = None, str(e)
            jobs.append((p, o, ','.join(chain)))
            want.append((fmt, chain, exp, why))
        res = bspbatch.run_batch(ctx, 's%d' % s, jobs)
        for (p, o, chain), (fmt, ch, exp, why), rs in zip(jobs, want, res):
            if rs is None:
                continue
            what = None
            if exp is None:
                if not rs[1].startswith('refused') or rs[1] in ('refused:generic', 'refused:notgeneric'):
                    what = 'out-of-range %s was not refused: %s' % (why, rs[1])
            elif rs[1] != 'ok':
                what = 'representable file was not converted: %s' % rs[1]
            else:
                try:
                    what = bspfmt.compare(exp, bspfmt.load(o, ch[-1]))
                except (bspfmt.BadFile, struct.error, IndexError) as e:
                    what = 'converted file does not decode: %s' % e
            if what:
                ctx.violation('convert:%s->%s' % (fmt, chain), what, files=[p, o])
            ctx.ok(1, key=[fmt, ch, exp is not None, why])
            ctx.stat('refused' if exp is None else 'converted')
            if not what:
                os.remove(p)
                os.path.exists(o) and os.remove(o)
    ctx.fork(shard, range(8))
