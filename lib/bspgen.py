"""Coherent random BSPs: random files (bspfmt) whose cross references are in range, with lightmapped axis-aligned faces."""
import math, struct
import bspfmt

PT = {'bsp29': 1, 'hl': 3}


def idx(fmt, lump):
    k = dict(bspfmt.FORMATS[fmt][2])[lump]
    return {n: i for i, n in enumerate(k[1])}


def setf(fmt, lump, row, **kw):
    ix = idx(fmt, lump)
    row = list(row)
    for k, v in kw.items():
        if k in ix:
            row[ix[k]] = v
    return tuple(row)


def rgb(fmt):
    return fmt in ('hl', 'q2bsp', 'qbism')


def hl_miptex(r, pal=True):
    name = bytes(r.choice(b'abcdefgh+*_0123{') for _ in range(r.randint(1, 15))).ljust(16, b'\0')
    w, h = 16 * r.randint(1, 3), 16 * r.randint(1, 3)
    offs, body = [], b''
    for i in range(4):
        offs.append(40 + len(body))
        body += bytes(r.getrandbits(8) for _ in range((w >> i) * (h >> i)))
    if pal:
        body += struct.pack('<H', 256) + bytes(r.getrandbits(8) for _ in range(768)) + b'\0\0'
    return name + struct.pack('<2I4I', w, h, *offs) + body


def coherent(r, fmt, decoupled=None, nfaces=None, maxside=300):
    """-> (file, faces) with faces[i] = dict(verts, w, h, lo, styles, luxel(vertex) -> lm coordinates)"""
    f = bspfmt.random_file(r, fmt, small=True)
    L = f['lumps']
    q2 = fmt in bspfmt.Q2FAM
    K = {n: k for n, k in bspfmt.FORMATS[fmt][2]}
    f['bspx'].pop('DECOUPLED_LM', None)
    for k in list(f['bspx']):
        if k.startswith('LMSHIFT'):
            del f['bspx'][k]
    # entity text printable
    L['entities'] = bytes(c if c < 128 else 63 for c in L['entities'])
    if not q2:
        L['textures'] = [None if r.random() < .2 else hl_miptex(r, r.random() < (.9 if fmt == 'hl' else .3)) for _ in range(r.randint(1, 5))]
        for lump in ('clipnodes',):
            n = len(L[lump])
            L[lump] = [setf(fmt, lump, x, ckids0=0xffff if K[lump][2][1] == 'H' else -1, ckids1=r.randint(0, n - 1)) for x in L[lump]]
    nt = r.randint(1, 8)
    ti = []
    for i in range(nt):
        row = bspfmt.record(r, K['texinfo'], True)
        if q2:
            row = setf(fmt, 'texinfo', row, next=r.choice([-1, -1, r.randint(i, nt - 1) if i < nt - 1 and r.random() < 1 else -1]))
            if row[-1] == i:
                row = setf(fmt, 'texinfo', row, next=-1)
        else:
            row = setf(fmt, 'texinfo', row, miptex=r.randint(0, len(L['textures']) - 1))
        ti.append(row)
    nf = r.randint(0, 12) if nfaces is None else nfaces
    L['vertexes'], L['edges'], L['surfedges'], L['faces'], L['planes'] = [], [(0, 0)], [], [], []
    for _ in range(3):
        L['vertexes'].append(bspfmt.record(r, bspfmt.VERT, True))
    light, info = b'', []
    dec = b''
    decoupled = (r.random() < .4) if decoupled is None else decoupled
    tis = []
    for i in range(nf):
        ax = r.randint(0, 2)
        u, v = [a for a in range(3) if a != ax]
        o = [r.randint(-2000, 2000) for _ in range(3)]
        su, sv = r.randint(1, maxside), r.randint(1, maxside)
        pts = []
        for a, b in ((0, 0), (su, 0), (su, sv), (0, sv)):
            p = list(map(float, o))
            p[u] += a
            p[v] += b
            pts.append(tuple(p))
        if r.random() < .3:
            pts = pts[:3]
        side = r.randint(0, 1)
        n = [0.0, 0.0, 0.0]
        n[ax] = 1.0
        L['planes'].append(tuple(n) + (float(o[ax]), ax))
        # texture vectors: exact in binary so that extents are not a matter of rounding
        base = r.choice(ti)
        s = [0.0] * 4
        t = [0.0] * 4
        s[u] = r.choice([1.0, -1.0, 0.5, 2.0, 1.0])
        t[v] = r.choice([1.0, -1.0, 0.5, 0.25, 1.0])
        if r.random() < .3:
            s[v] = r.choice([0.5, -0.25])
        s[3], t[3] = float(r.randint(-64, 64)), float(r.randint(-64, 64))
        row = list(base)
        row[:8] = s + t
        tis.append(tuple(row))
        fe = len(L['surfedges'])
        vb = len(L['vertexes'])
        L['vertexes'] += pts
        for j in range(len(pts)):
            a, b = vb + j, vb + (j + 1) % len(pts)
            if r.random() < .5:
                L['edges'].append((a, b))
                L['surfedges'].append((len(L['edges']) - 1,))
            else:
                L['edges'].append((b, a))
                L['surfedges'].append((-(len(L['edges']) - 1),))
        uv = [tuple(sum(q[c] * vec[c] for c in range(3)) + vec[3] for vec in (s, t)) for q in pts]
        if decoupled:
            w, h = r.choice([(r.randint(1, 40), r.randint(1, 40)), (r.randint(1, 300), r.randint(1, 40))])
            m = [[0.0] * 4, [0.0] * 4]
            m[0][u], m[1][v] = r.choice([1.0, 0.25]), r.choice([0.5, -1.0])
            m[0][3], m[1][3] = float(r.randint(-50, 50)), float(r.randint(-50, 50))
            lm = [tuple(sum(q[c] * vec[c] for c in range(3)) + vec[3] for vec in m) for q in pts]
        else:
            lo = [math.floor(min(x[c] for x in uv) / 16) for c in (0, 1)]
            hi = [math.ceil(max(x[c] for x in uv) / 16) for c in (0, 1)]
            w, h = hi[0] - lo[0] + 1, hi[1] - lo[1] + 1
            lm = [tuple(x[c] / 16 - lo[c] for c in (0, 1)) for x in uv]
        ns = r.randint(0, 4)
        styles = r.sample([0, 0, 1, 2, 32, 63, r.randint(1, 200)], ns)
        styles = list(dict.fromkeys(styles))
        ns = len(styles)
        styles += [255] * (4 - ns)
        bpp = 3 if rgb(fmt) else 1
        ofs = -1
        if ns:
            if r.random() < .3:
                light += b'\7' * r.randint(0, 5)
            ofs = len(light)
            light += bytes(r.getrandbits(8) for _ in range(w * h * ns * bpp))
        if decoupled:
            dec += struct.pack('<HHi8f', w, h, ofs, *(m[0] + m[1]))
        L['faces'].append(setf(fmt, 'faces', bspfmt.record(r, K['faces'], True), plane=len(L['planes']) - 1, side=side, fe=fe, ne=len(pts), ti=len(tis) - 1,
                               st0=styles[0], st1=styles[1], st2=styles[2], st3=styles[3], lo=(-1 if decoupled and r.random() < .5 else ofs)))
        info.append(dict(verts=pts, w=w, h=h, lo=ofs, styles=styles[:ns], lm=lm, bpp=bpp, side=side, n=n, ti=len(tis) - 1, uv=uv))
    if q2:  # next indices refer to the combined table
        tis = [setf(fmt, 'texinfo', x, next=-1) for x in tis]
    L['texinfo'] = tis + [setf(fmt, 'texinfo', x, **({'next': x[-1] + len(tis) if x[-1] >= 0 else -1} if q2 else {})) for x in ti]
    L['lighting'] = light
    if decoupled:
        f['bspx']['DECOUPLED_LM'] = dec
    npl = len(L['planes']) or 1
    L['planes'] += [bspfmt.record(r, bspfmt.PLANE, True) for _ in range(r.randint(1, 3))]
    npl = len(L['planes'])
    nl = len(L['leafs'])
    if not nl:
        L['leafs'] = [bspfmt.record(r, K['leafs'], True)]
        nl = 1
    nn = len(L['nodes'])
    L['nodes'] = [setf(fmt, 'nodes', x, plane=r.randint(0, npl - 1), kids0=r.randint(i + 1, nn - 1) if i + 1 < nn and r.random() < .6 else -1 - r.randint(0, nl - 1),
                       kids1=-1 - r.randint(0, nl - 1)) for i, x in enumerate(L['nodes'])]
    L['leaffaces'] = [(r.randint(0, nf - 1),) for _ in range(r.randint(0, 20))] if nf else []
    ff = r.randint(0, nf)
    for i, m in enumerate(L['models']):
        ff = r.randint(0, nf)
        L['models'][i] = setf(fmt, 'models', m, ff=ff, nf=r.randint(0, nf - ff), **{'head0': r.randint(0, nn - 1) if nn else -1})
    if q2:
        nbs = len(L['brushsides'])
        L['brushsides'] = [setf(fmt, 'brushsides', x, plane=r.randint(0, npl - 1), ti=r.randint(-1, len(L['texinfo']) - 1)) for x in L['brushsides']]
        nb = len(L['brushes'])
        for i, x in enumerate(L['brushes']):
            fs = r.randint(0, nbs)
            L['brushes'][i] = setf(fmt, 'brushes', x, fs=fs, ns=r.randint(0, nbs - fs))
        L['leafbrushes'] = [(r.randint(0, nb - 1),) for _ in range(r.randint(0, 9))] if nb else []
    if fmt not in bspfmt.Q2FAM:
        # the Hexen II / Quake distinction is inferred from the models
        if not L['nodes']:
            for i, m in enumerate(L['models']):
                L['models'][i] = setf(fmt, 'models', m, head0=-1)
    return f, info


def read_png(b):
    """8-bit RGBA / RGB PNG -> (w, h, channels, bytes)"""
    import zlib
    assert b[:8] == b'\x89PNG\r\n\x1a\n'
    p, idat = 8, b''
    while p < len(b):
        n, t = struct.unpack_from('>I4s', b, p)
        d = b[p + 8:p + 8 + n]
        if zlib.crc32(t + d) != struct.unpack_from('>I', b, p + 8 + n)[0]:
            raise ValueError('bad chunk crc')
        if t == b'IHDR':
            w, h, bd, ct, _, _, il = struct.unpack('>IIBBBBB', d)
        if t == b'IDAT':
            idat += d
        p += 12 + n
    ch = {0: 1, 2: 3, 6: 4}[ct]
    raw = zlib.decompress(idat)
    st = w * ch
    if len(raw) != h * (st + 1):
        raise ValueError('png data size')
    out, prev = bytearray(), bytearray(st)
    for y in range(h):
        ft = raw[y * (st + 1)]
        row = bytearray(raw[y * (st + 1) + 1:(y + 1) * (st + 1)])
        for x in range(st):
            a = row[x - ch] if x >= ch else 0
            up = prev[x]
            c = prev[x - ch] if x >= ch else 0
            if ft == 1:
                row[x] = (row[x] + a) & 255
            elif ft == 2:
                row[x] = (row[x] + up) & 255
            elif ft == 3:
                row[x] = (row[x] + ((a + up) >> 1)) & 255
            elif ft == 4:
                pa, pb, pc = abs(up - c), abs(a - c), abs(a + up - 2 * c)
                row[x] = (row[x] + (a if pa <= pb and pa <= pc else up if pb <= pc else c)) & 255
        out += row
        prev = row
    return w, h, ch, bytes(out)
