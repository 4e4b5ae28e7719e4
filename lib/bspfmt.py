"""Independent encoder/decoder of every BSP container (written from the published formats, not from /repo's code).
A file is {'fmt', 'lumps': {name: list of records | bytes}, 'bspx': {name: bytes}}; records are tuples in FIELDS order."""
import math, struct


def F(spec):
    """'plane:i kids:2h mn:3h' -> (struct fmt, [field names], [type code per scalar])"""
    fmt, names, types = '<', [], []
    for part in spec.split():
        n, t = part.split(':')
        cnt = int(t[:-1]) if len(t) > 1 else 1
        for i in range(cnt):
            names.append(n + (str(i) if cnt > 1 else ''))
            types.append(t[-1])
        fmt += str(cnt) + t[-1]
    return struct.Struct(fmt), names, types


PLANE = F('n:3f dist:f type:i')
VERT = F('v:3f')
NODE29 = F('plane:i kids:2h mn:3h mx:3h ff:H nf:H')
NODERMQ = F('plane:i kids:2i mn:3h mx:3h ff:I nf:I')
NODE2 = F('plane:i kids:2i mn:3f mx:3f ff:I nf:I')
NODEQ2 = F('plane:i kids:2i mn:3h mx:3h ff:H nf:H')
TI1 = F('vecs:8f miptex:i flags:i')
FACE29 = F('plane:h side:h fe:i ne:h ti:h st:4B lo:i')
FACE2 = F('plane:i side:i fe:i ne:i ti:i st:4B lo:i')
FACEQ2 = F('plane:H side:h fe:i ne:h ti:h st:4B lo:i')
FACEQB = F('plane:I side:i fe:i ne:i ti:i st:4B lo:i')
CLIP29 = F('plane:i ckids:2H')
CLIP2 = F('plane:i ckids:2i')
LEAF29 = F('cont:i visofs:i mn:3h mx:3h fm:H nm:H amb:4B')
LEAFRMQ = F('cont:i visofs:i mn:3h mx:3h fm:I nm:I amb:4B')
LEAF2 = F('cont:i visofs:i mn:3f mx:3f fm:I nm:I amb:4B')
LEAFQ2 = F('cont:i cluster:h area:h mn:3h mx:3h fm:H nm:H fb:H nb:H')
LEAFQB = F('cont:i cluster:i area:i mn:3f mx:3f fm:I nm:I fb:I nb:I')
U16 = F('x:H')
U32 = F('x:I')
I32 = F('x:i')
EDGE16 = F('v:2H')
EDGE32 = F('v:2I')
MODEL1 = F('mn:3f mx:3f org:3f head:4i vl:i ff:i nf:i')
MODELH = F('mn:3f mx:3f org:3f head:8i vl:i ff:i nf:i')
MODELQ2 = F('mn:3f mx:3f org:3f head:1i ff:i nf:i')
MODELQ2 = (MODELQ2[0], [n if n != 'head' else 'head0' for n in MODELQ2[1]], MODELQ2[2])
BRUSH = F('fs:i ns:i cont:i')
BS2 = F('plane:H ti:h')
BSQB = F('plane:I ti:i')
AREA = F('n:i first:i')
AREAP = F('p:i other:i')


class TI2:
    pass


TIQ2 = (struct.Struct('<8fii32si'), ['vecs%d' % i for i in range(8)] + ['flags', 'value', 'tex', 'next'], list('ffffffffii') + ['s', 'i'])
RAW, TEXT, MIP, VIS2 = 'raw', 'text', 'mip', 'vis2'


def q1(node, face, clip, leaf, mark, edge, model):
    return [('entities', TEXT), ('planes', PLANE), ('textures', MIP), ('vertexes', VERT), ('visibility', RAW), ('nodes', node), ('texinfo', TI1),
            ('faces', face), ('lighting', RAW), ('clipnodes', clip), ('leafs', leaf), ('leaffaces', mark), ('edges', edge), ('surfedges', I32), ('models', model)]


def q2(node, face, leaf, idx, edge, bside):
    return [('entities', TEXT), ('planes', PLANE), ('vertexes', VERT), ('visibility', VIS2), ('nodes', node), ('texinfo', TIQ2), ('faces', face),
            ('lighting', RAW), ('leafs', leaf), ('leaffaces', idx), ('leafbrushes', idx), ('edges', edge), ('surfedges', I32), ('models', MODELQ2),
            ('brushes', BRUSH), ('brushsides', bside), ('pop', RAW), ('areas', AREA), ('areaportals', AREAP)]


I29, IB2, IRMQ, IHL = struct.pack('<i', 29), b'BSP2', b'2PSB', struct.pack('<i', 30)
FORMATS = {
    'bsp29': (I29, None, q1(NODE29, FACE29, CLIP29, LEAF29, U16, EDGE16, MODEL1)),
    'hl': (IHL, None, q1(NODE29, FACE29, CLIP29, LEAF29, U16, EDGE16, MODEL1)),
    'bsp2rmq': (IRMQ, None, q1(NODERMQ, FACE2, CLIP2, LEAFRMQ, U32, EDGE32, MODEL1)),
    'bsp2': (IB2, None, q1(NODE2, FACE2, CLIP2, LEAF2, U32, EDGE32, MODEL1)),
    'hexen2': (I29, None, q1(NODE29, FACE29, CLIP29, LEAF29, U16, EDGE16, MODELH)),
    'hexen2bsp2': (IB2, None, q1(NODE2, FACE2, CLIP2, LEAF2, U32, EDGE32, MODELH)),
    'hexen2bsp2rmq': (IRMQ, None, q1(NODERMQ, FACE2, CLIP2, LEAFRMQ, U32, EDGE32, MODELH)),
    'q2bsp': (b'IBSP', 38, q2(NODEQ2, FACEQ2, LEAFQ2, U16, EDGE16, BS2)),
    'qbism': (b'QBSP', 38, q2(NODE2, FACEQB, LEAFQB, U32, EDGE32, BSQB)),
}
Q1FAM = ['bsp29', 'hl', 'bsp2rmq', 'bsp2']
H2FAM = ['hexen2', 'hexen2bsp2', 'hexen2bsp2rmq']
Q2FAM = ['q2bsp', 'qbism']
RANGE = {'h': (-32768, 32767), 'H': (0, 65535), 'i': (-2**31, 2**31 - 1), 'I': (0, 2**32 - 1), 'B': (0, 255)}


class BadFile(Exception):
    pass


def pad4(b):
    return b + b'\0' * (-len(b) % 4)


def enc_lump(kind, v):
    if kind == RAW:
        return v
    if kind == TEXT:
        return v + b'\0'
    if kind == MIP:  # list of None | bytes
        if v is None:
            return b''
        head, body = [], b''
        base = 4 + 4 * len(v)
        for t in v:
            if t is None:
                head.append(-1)
            else:
                body += b'\0' * (-(base + len(body)) % 4)
                head.append(base + len(body))
                body += t
        return struct.pack('<i%di' % len(v), len(v), *head) + body
    if kind == VIS2:  # None | (offsets [(pvs,phs)], bits)
        if v is None:
            return b''
        return struct.pack('<i', len(v[0])) + b''.join(struct.pack('<2i', *o) for o in v[0]) + v[1]
    return b''.join(kind[0].pack(*r) for r in v)


def dec_lump(kind, b):
    if kind == RAW:
        return b
    if kind == TEXT:
        return b[:-1] if b.endswith(b'\0') else b
    if kind == MIP:
        if not b:
            return None
        n, = struct.unpack_from('<i', b)
        offs = struct.unpack_from('<%di' % n, b, 4)
        out = []
        ends = sorted(o for o in offs if o >= 0) + [len(b)]
        for o in offs:
            if o < 0:
                out.append(None)
                continue
            if o > len(b):
                raise BadFile('miptex offset beyond lump')
            out.append(b[o:next((e for e in ends if e > o), len(b))])
        return out
    if kind == VIS2:
        if not b:
            return None
        n, = struct.unpack_from('<i', b)
        offs = [struct.unpack_from('<2i', b, 4 + 8 * i) for i in range(n)]
        return offs, b[4 + 8 * n:]
    if len(b) % kind[0].size:
        raise BadFile('odd lump size')
    return list(kind[0].iter_unpack(b))


def encode(f, order=None):
    ident, ver, spec = FORMATS[f['fmt']]
    hdr = ident + (struct.pack('<i', ver) if ver is not None else b'')
    out = hdr + b'\0' * (8 * len(spec))
    dirs = {}
    for name, kind in (order or spec):
        b = enc_lump(kind, f['lumps'][name])
        dirs[name] = (len(out), len(b))
        out = pad4(out + b)
    if f.get('bspx'):
        h = b'BSPX' + struct.pack('<I', len(f['bspx']))
        pos = len(out) + len(h) + 32 * len(f['bspx'])
        body = b''
        for n, d in f['bspx'].items():
            h += n.encode().ljust(24, b'\0') + struct.pack('<II', pos + len(body), len(d))
            body = body + pad4(d)
        out += h + body
    d = b''.join(struct.pack('<ii', *dirs[n]) for n, _ in spec)
    return hdr + d + out[len(hdr) + len(d):]


def decode(b, fmt=None):
    ident = b[:4]
    cands = [k for k, v in FORMATS.items() if v[0] == ident]
    if not cands:
        raise BadFile('unknown ident %r' % ident)
    fmt = fmt or cands[0]
    _, ver, spec = FORMATS[fmt]
    pos = 4
    if FORMATS[fmt][0] != ident:
        raise BadFile('ident %r is not %s' % (ident, fmt))
    if ver is not None:
        v, = struct.unpack_from('<i', b, 4)
        if v != ver:
            raise BadFile('version %d' % v)
        pos = 8
    lumps, ends, offs = {}, 0, []
    for i, (name, kind) in enumerate(spec):
        o, n = struct.unpack_from('<ii', b, pos + 8 * i)
        if o < 0 or n < 0 or o + n > len(b):
            raise BadFile('lump %s [%d,+%d) outside the file of %d' % (name, o, n, len(b)))
        if n and o % 4:
            raise BadFile('lump %s misaligned at %d' % (name, o))
        lumps[name] = dec_lump(kind, b[o:o + n])
        if n:
            offs.append((o, o + n, name))
        ends = max(ends, o + n)
    offs.sort()
    for (a, b1, n1), (c, d, n2) in zip(offs, offs[1:]):
        if c < b1:
            raise BadFile('lumps %s and %s overlap' % (n1, n2))
    if offs and offs[0][0] < pos + 8 * len(spec):
        raise BadFile('lump overlaps header')
    x = (ends + 3) & ~3
    bspx = {}
    if x + 8 <= len(b) and b[x:x + 4] == b'BSPX':
        n, = struct.unpack_from('<I', b, x + 4)
        for i in range(n):
            nm, o, l = struct.unpack_from('<24sII', b, x + 8 + 32 * i)
            if o + l > len(b) or o < x + 8 + 32 * n:
                raise BadFile('bspx lump outside file')
            bspx[nm.split(b'\0')[0].decode('latin1')] = b[o:o + l]
    return {'fmt': fmt, 'lumps': lumps, 'bspx': bspx}


def load(path, fmt=None):
    return decode(open(path, 'rb').read(), fmt)


class Refused(Exception):
    pass


def conv_field(name, st, dt, v):
    if name.startswith('ckids'):
        if st == 'H':
            v = v - 0x10000 if v > 0xfff0 else v
        if dt == 'H':
            if v < -15 or v > 0xfff0:
                raise Refused('clipnode child')
            return v & 0xffff
        return v
    if st == 'f' and dt == 'h':
        v = math.floor(v) if name.startswith('mn') else math.ceil(v)
    if dt == 'f':
        return float(v)
    if dt in RANGE and not (RANGE[dt][0] <= v <= RANGE[dt][1]):
        raise Refused(name)
    return v


def convert(f, to):
    """what a lossless-or-refused conversion must produce"""
    src = dict(FORMATS[f['fmt']][2])
    out = {'fmt': to, 'lumps': {}, 'bspx': dict(f.get('bspx', {}))}
    for name, kind in FORMATS[to][2]:
        v = f['lumps'][name]
        sk = src[name]
        if name == 'pop':
            v = b''
        elif not isinstance(kind, str):
            idx = {n: i for i, n in enumerate(sk[1])}
            st = {n: t for n, t in zip(sk[1], sk[2])}
            rows = []
            for r in v:
                rows.append(tuple(conv_field(n, st[n], t, r[idx[n]]) if n in idx else 0 for n, t in zip(kind[1], kind[2])))
            v = rows
        out['lumps'][name] = v
    return out


def compare(want, got):
    """first difference between two decoded files, or None.  Texture blobs may have gained padding."""
    for name, kind in FORMATS[want['fmt']][2]:
        a, b = want['lumps'][name], got['lumps'][name]
        if name == 'pop':
            continue
        if kind == MIP:
            a, b = a or [], b or []
            if len(a) != len(b):
                return '%s: %d textures became %d' % (name, len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                if (x is None) != (y is None):
                    return 'texture %d presence changed' % i
                if x is not None and (y[:len(x)] != x or len(y) > len(x) + 6 or y[len(x):].strip(b'\0')):
                    return 'texture %d bytes changed (%d -> %d bytes)' % (i, len(x), len(y))
            continue
        if isinstance(kind, str):
            if a != b:
                return '%s changed: %r... -> %r...' % (name, str(a)[:80], str(b)[:80])
            continue
        if len(a) != len(b):
            return '%s: %d records became %d' % (name, len(a), len(b))
        if kind[0].pack and b''.join(kind[0].pack(*r) for r in a) != b''.join(kind[0].pack(*r) for r in b):
            for i, (x, y) in enumerate(zip(a, b)):
                if kind[0].pack(*x) != kind[0].pack(*y):
                    j = next(j for j in range(len(x)) if kind[0].pack(*(x[:j] + (y[j],) + x[j + 1:])) != kind[0].pack(*x))
                    return '%s[%d].%s: %r became %r' % (name, i, kind[1][j], x[j], y[j])
    if want['bspx'] != got['bspx']:
        ks = [k for k in set(want['bspx']) | set(got['bspx']) if want['bspx'].get(k) != got['bspx'].get(k)]
        return 'BSPX lumps differ: %s (lengths %s -> %s)' % (ks, [len(want['bspx'].get(k, b'')) for k in ks], [len(got['bspx'].get(k, b'')) for k in ks])
    return None


# ------------------------------------------------------------------ random files
def rfloat(r):
    k = r.random()
    if k < .3:
        return float(r.randint(-4096, 4096))
    if k < .9:
        return struct.unpack('<f', struct.pack('<f', r.uniform(-5000, 5000)))[0]
    if k < .95:
        return struct.unpack('<f', struct.pack('<f', r.uniform(-1e30, 1e30)))[0]
    return r.choice([0.0, -0.0, struct.unpack('<f', struct.pack('<f', 1e-40))[0], 32767.0, -32768.0, 0.5, -0.5])


def rint(r, t, small):
    lo, hi = RANGE[t]
    k = r.random()
    if k < .6:
        return r.randint(max(lo, -100 if lo < 0 else 0), min(hi, 255 if t == 'B' else 30000))
    if k < .8 or small:
        return r.choice([x for x in (lo if not small else max(lo, -32768), min(hi, 32767), 0, 1, max(lo, -1), 255, min(hi, 65535 if not small else 32767)) if lo <= x <= hi])
    return r.randint(lo, hi)


def record(r, kind, small):
    out = []
    for n, t in zip(kind[1], kind[2]):
        if t == 'f':
            v = rfloat(r)
            if small and (n.startswith('mn') or n.startswith('mx')):
                v = max(-32768.0, min(32767.0, v))
            out.append(v)
        elif t == 's':
            out.append(bytes(r.choice(b'abcdefgh/_0123') for _ in range(r.randint(0, 31))).ljust(32, b'\0'))
        elif n.startswith('ckids'):
            if t == 'H':
                out.append(r.choice([r.randint(0, 0xfff0), 0xfff0, 0xfff1, 0xffff, 0xfffe, r.randint(0xfff1, 0xffff), 40000, 0, 32767, 32768]))
            else:
                out.append(r.choice([r.randint(0, 0xfff0), 0xfff0, -1, -15, r.randint(-15, -1), 0, 32768] + ([] if small else [0xfff1, 0x10000, -16, 2**31 - 1])))
        else:
            out.append(rint(r, t, small))
    return tuple(out)


def miptex(r):
    name = bytes(r.choice(b'abcdefgh+*_0123{') for _ in range(r.randint(1, 15))).ljust(16, b'\0')
    w, h = 16 * r.randint(0, 3), 16 * r.randint(0, 3)
    if r.random() < .2:
        return name + struct.pack('<6I', w, h, 0, 0, 0, 0)
    offs, body, pos = [], b'', 40
    for i in range(4):
        n = (w >> i) * (h >> i)
        offs.append(pos + len(body))
        body += bytes(r.getrandbits(8) for _ in range(n))
    if r.random() < .4:  # Half-Life palette, possibly odd length
        body += struct.pack('<H', 256) + bytes(r.getrandbits(8) for _ in range(r.choice([768, 768, 767, 5])))
    return name + struct.pack('<2I4I', w, h, *offs) + body


def text(r):
    s = b''
    for _ in range(r.randint(0, 4)):
        s += b'{\n"classname" "info_x"\n"k" "' + bytes(r.choice(b'abc \xe9\x80xyz0') for _ in range(r.randint(0, 40))) + b'"\n}\n'
    return s


def random_file(r, fmt, small=None):
    small = r.random() < .5 if small is None else small
    f = {'fmt': fmt, 'lumps': {}, 'bspx': {}}
    for name, kind in FORMATS[fmt][2]:
        n = r.choice([0, 1, 2, r.randint(0, 12), r.randint(0, 60)])
        if kind == RAW:
            v = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 4, 5, r.randint(0, 300)]))) if name != 'pop' else b''
        elif kind == TEXT:
            v = text(r)
        elif kind == MIP:
            v = [None if r.random() < .25 else miptex(r) for _ in range(r.randint(0, 6))]
        elif kind == VIS2:
            if r.random() < .3:
                v = None
            else:
                k = r.choice([1, 2, 7, 8, 9, r.randint(1, 70)])
                v = ([(r.randint(0, 9999), r.randint(0, 9999)) for _ in range(k)], bytes(r.getrandbits(8) for _ in range(r.randint(0, 99))))
        elif name == 'models':
            v = None
        else:
            v = [record(r, kind, small) for _ in range(n)]
        f['lumps'][name] = v
    # models must be plausible: the Hexen II / Quake distinction is inferred from them
    kind = dict(FORMATS[fmt][2])['models']
    n = r.choice([1, 1, 2, 3, 4, 5, 5, 8, 10, 20, r.randint(1, 40)])
    L = f['lumps']
    if 'head7' in kind[1] or n % 5 == 0:
        for need in ('nodes', 'clipnodes', 'leafs', 'faces'):
            if fmt not in Q2FAM and not L[need]:
                L[need] = [record(r, dict(FORMATS[fmt][2])[need], small)]
    ms = []
    for i in range(n):
        row = []
        for nm, t in zip(kind[1], kind[2]):
            if t == 'f':
                v = 0.0
                while v == 0.0 or abs(v) < 1e-30:
                    v = rfloat(r)
                row.append(v)
            elif nm == 'head0':
                row.append(r.randint(-1, len(L['nodes']) - 1) if L['nodes'] else -1)
            elif nm.startswith('head'):
                row.append(r.randint(-1, len(L['clipnodes']) - 1) if L['clipnodes'] else -1)
            elif nm == 'vl':
                row.append(r.randint(0, len(L['leafs'])))
            elif nm == 'ff':
                ff = r.randint(0, len(L['faces']))
                row.append(ff)
            else:
                row.append(r.randint(0, len(L['faces']) - ff))
        ms.append(tuple(row))
    L['models'] = ms
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        nm = r.choice(['RGBLIGHTING', 'LIGHTINGDIR', 'DECOUPLED_LM', 'VERTEXNORMALS', 'x', 'A' * 23, 'LMSHIFT%d' % r.randint(0, 99)])
        f['bspx'][nm] = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 3, 4, r.randint(0, 200)])))
    return f
