import os, struct
import vp, bspfmt, bspbatch


def brushlist(r):
    out = b''
    for m in range(r.randint(0, 4)):
        br, nf = b'', 0
        nb = r.randint(0, 6)
        for _ in range(nb):
            k = r.choice([0, 0, 1, 3, r.randint(0, 40), 300])
            nf += k
            br += struct.pack('<6fhH', *[bspfmt.rfloat(r) for _ in range(6)], r.randint(-32768, 32767), k)
            br += b''.join(struct.pack('<4f', *[bspfmt.rfloat(r) for _ in range(4)]) for _ in range(k))
        out += struct.pack('<4i', 1, m, nb, nf) + br
    return out


def facenormals(r, faces, nei):
    n = r.randint(0, 30)
    b = struct.pack('<I', n) + b''.join(struct.pack('<3f', *[bspfmt.rfloat(r) for _ in range(3)]) for _ in range(n))
    for f in faces:
        for _ in range(max(0, f[nei])):
            b += struct.pack('<3I', *[r.getrandbits(32) for _ in range(3)])
    return b


def check(ctx):
    vp.build('san', ['h_bsp'])
    ctx.rule = 'distinct = (format, chain, lump-population signature) of files whose every lump was decoded by the independent decoder and compared'
    ctx.assumptions = ['lib/bspfmt.py encodes/decodes the published container layouts']
    total = ctx.n(5000, 60000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        jobs, want = [], []
        for c in range(s, total, 8):
            r = ctx.rng('f', c)
            fmt = list(bspfmt.FORMATS)[c % len(bspfmt.FORMATS)]
            chain = r.choice(['-', 'generic', 'recode']) if c % 3 else '-'
            chain = {'-': '-', 'generic': fmt, 'recode': 'recode'}[chain]
            f = bspfmt.random_file(r, fmt)
            if r.random() < .02:  # large counts
                f['lumps']['vertexes'] = [bspfmt.record(r, bspfmt.VERT, True) for _ in range(70000)]
            if chain == 'recode':
                faces = f['lumps']['faces']
                k = dict(bspfmt.FORMATS[fmt][2])['faces']
                ni = k[1].index('ne')
                f['lumps']['faces'] = faces = [t[:ni] + (abs(t[ni]) % 9,) + t[ni + 1:] for t in faces]
                for nm, b in (('BRUSHLIST', brushlist(r)), ('FACENORMALS', facenormals(r, faces, ni)),
                              ('DECOUPLED_LM', b''.join(struct.pack('<HHi8f', r.getrandbits(16), r.getrandbits(16), r.randint(-1, 2**31 - 1), *[bspfmt.rfloat(r) for _ in range(8)]) for _ in faces))):
                    if r.random() < .8:
                        f['bspx'][nm] = b
                    else:
                        f['bspx'].pop(nm, None)
            elif r.random() < .3:
                f['bspx'].pop('DECOUPLED_LM', None)
            spec = list(bspfmt.FORMATS[fmt][2])
            if r.random() < .5:
                r.shuffle(spec)
            p, o = '%s/%d.bsp' % (d, c), '%s/%d.out' % (d, c)
            open(p, 'wb').write(bspfmt.encode(f, spec))
            jobs.append((p, o, chain))
            want.append(f)
        res = bspbatch.run_batch(ctx, 's%d' % s, jobs)
        for (p, o, chain), f, rs in zip(jobs, want, res):
            if rs is None:
                continue
            fmt = f['fmt']
            what = None
            if rs[1] != 'ok':
                # a value the format itself cannot hold cannot occur here: same format in and out
                what = 'valid %s file came back as: %s' % (fmt, rs[1])
                key = 'refused'
            elif rs[0] != fmt:
                key, what = 'detect', '%s file was taken for %s' % (fmt, rs[0])
            else:
                key = 'roundtrip'
                try:
                    got = bspfmt.load(o, fmt)
                    what = bspfmt.compare(f, got)
                except (bspfmt.BadFile, struct.error, IndexError) as e:
                    what = 'written file does not decode: %s' % e
            if what:
                ctx.violation('%s:%s' % (key, fmt), '%s (chain %s)' % (what, chain), files=[p, o])
            sig = [len(x) if x is not None else -1 for x in f['lumps'].values()]
            ctx.ok(1, key=[fmt, chain, [min(3, x) for x in sig], len(f['bspx'])])
            ctx.stat('lumps_compared', len(sig) + len(f['bspx']))
            ctx.stat('records_compared', sum(max(0, x) for x in sig))
            if not what:
                os.remove(p)
                os.path.exists(o) and os.remove(o)
    ctx.fork(shard, range(8))
    ctx.samples = ['%d %s files' % (total // len(bspfmt.FORMATS), k) for k in bspfmt.FORMATS][:6]
