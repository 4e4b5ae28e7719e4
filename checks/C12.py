import json, math, os, re, struct
import vp, bspfmt, bspgen
from palettes import PAL
import importlib.util
_s = importlib.util.spec_from_file_location('c01', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'C01.py'))
_c01 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_c01)

JSON = {  # json table -> lump, [(json key, [fields])]
    'models': ('models', [('mins', 'mn'), ('maxs', 'mx'), ('origin', 'org'), ('headnode', 'head'), ('visleafs', 'vl'), ('firstface', 'ff'), ('numfaces', 'nf')]),
    'leafs': ('leafs', [('contents', 'cont'), ('visofs', 'visofs'), ('mins', 'mn'), ('maxs', 'mx'), ('firstmarksurface', 'fm'), ('nummarksurfaces', 'nm'), ('ambient_level', 'amb'),
                        ('cluster', 'cluster'), ('area', 'area'), ('firstleafbrush', 'fb'), ('numleafbrushes', 'nb')]),
    'planes': ('planes', [('normal', 'n'), ('dist', 'dist'), ('type', 'type')]),
    'nodes': ('nodes', [('planenum', 'plane'), ('children', 'kids'), ('mins', 'mn'), ('maxs', 'mx'), ('firstface', 'ff'), ('numfaces', 'nf')]),
    'texinfo': ('texinfo', [('flags', 'flags'), ('miptex', 'miptex'), ('value', 'value'), ('texture', 'tex'), ('nexttexinfo', 'next')]),
    'faces': ('faces', [('planenum', 'plane'), ('side', 'side'), ('firstedge', 'fe'), ('numedges', 'ne'), ('texinfo', 'ti'), ('styles', 'st'), ('lightofs', 'lo')]),
    'clipnodes': ('clipnodes', [('planenum', 'plane'), ('children', 'ckids')]),
    'brushsides': ('brushsides', [('planenum', 'plane'), ('texinfo', 'ti')]),
    'brushes': ('brushes', [('firstside', 'fs'), ('numsides', 'ns'), ('contents', 'cont')]),
}
LISTS = {'vertexes': 'vertexes', 'edges': 'edges', 'leaffaces': 'leaffaces', 'surfedges': 'surfedges', 'leafbrushes': 'leafbrushes'}


class Diff(Exception):
    pass


def need(c, key, what):
    if not c:
        raise Diff(key, what)


def values(fmt, lump, row, stem):
    k = dict(bspfmt.FORMATS[fmt][2])[lump]
    names = [n for n in k[1]]
    out = [row[i] for i, n in enumerate(names) if n == stem or (n.startswith(stem) and n[len(stem):].isdigit())]
    if stem == 'ckids':
        out = [v - 0x10000 if k[2][1] == 'H' and v > 0xfff0 else v for v in out]
    return [v if isinstance(v, (int, bytes)) else struct.unpack('<f', struct.pack('<f', v))[0] for v in out]


def same(a, b):
    a = a if isinstance(a, list) else [a]
    return len(a) >= len(b) and all(x == y for x, y in zip(a, b))


def check_json(f, info, j):
    L, fmt = f['lumps'], f['fmt']
    for tab, (lump, keys) in JSON.items():
        rows = L.get(lump) or []
        got = j.get(tab, [])
        need(len(got) == len(rows), 'json-' + tab, '%d %s in the file, %d in the json' % (len(rows), tab, len(got)))
        for i, (r, g) in enumerate(zip(rows, got)):
            for jk, stem in keys:
                want = values(fmt, lump, r, stem)
                if not want:
                    continue
                if jk == 'texture':
                    want = [want[0].split(b'\0')[0].decode('latin1')]
                need(same(g.get(jk), want), 'json-%s-%s' % (tab, jk), '%s[%d].%s is %s in the file, %s in the json' % (tab, i, jk, want, g.get(jk)))
            if tab == 'texinfo':
                need(sum(g['vecs'], []) == list(values(fmt, lump, r, 'vecs')), 'json-vecs', 'texinfo %d: %s' % (i, g['vecs']))
            if tab == 'nodes':
                p = L['planes'][values(fmt, lump, r, 'plane')[0]]
                need(g['plane'] == list(p[:4]), 'json-node-plane', 'node %d: %s' % (i, g['plane']))
            if tab == 'faces':
                need([tuple(v) for v in g['vertices']] == info[i]['verts'], 'json-vertices', 'face %d: vertices %s expected %s' % (i, g['vertices'], info[i]['verts']))
    for tab, lump in LISTS.items():
        rows = [list(r) if len(r) > 1 else r[0] for r in (L.get(lump) or [])]
        need(j.get(tab, []) == rows, 'json-' + tab, '%s differ: %s... expected %s...' % (tab, str(j.get(tab, []))[:200], str(rows)[:200]))
    need(j.get('lightdata', '') == L['lighting'].hex(), 'json-lightdata', 'lightdata differs')
    need(j.get('entdata', '\0') == L['entities'].decode() + '\0', 'json-entdata', repr(j.get('entdata'))[:200])
    vis = L['visibility']
    if isinstance(vis, tuple):
        if vis[1]:
            v = j.get('visdata', {})
            need(v.get('pvs') == [o[0] for o in vis[0]] and v.get('phs') == [o[1] for o in vis[0]], 'json-vis', 'pvs %s phs %s expected %s' % (v.get('pvs'), v.get('phs'), vis[0]))
            base = bytes.fromhex(v.get('bits', ''))
            need(base.endswith(vis[1]), 'json-visbits', 'visbits differ')
    elif vis:
        need(j.get('visdata', '') == vis.hex(), 'json-visdata', 'visdata differs')
    tex = L.get('textures')
    if tex:
        got = j.get('textures', [])
        need(len(got) == len(tex), 'json-textures', '%d textures, %d in the json' % (len(tex), len(got)))
        for i, (t, g) in enumerate(zip(tex, got)):
            need((t is None) == (g is None), 'json-texture', 'texture %d: %s' % (i, str(g)[:80]))
            if t is None:
                continue
            w, h = struct.unpack_from('<2I', t, 16)
            need(g['name'] == t[:16].split(b'\0')[0].decode() and (g['width'], g['height']) == (w, h), 'json-texture', 'texture %d: %s' % (i, str(g)[:80]))
            tail = t[40 + sum((w >> k) * (h >> k) for k in range(4)):]
            if fmt == 'hl' and len(tail) < 770:
                need(not g['mips'], 'json-mip', 'pixels without palette')
                continue
            m = g['mips'][0]
            need(m.startswith('data:image/png;base64,'), 'json-mip', m[:40])
            import base64
            pw, ph, ch, px = bspgen.read_png(base64.b64decode(m[22:], validate=True))
            need((pw, ph, ch) == (w, h, 4), 'json-mip-size', '%s expected %s' % ((pw, ph, ch), (w, h)))
            src = t[40:40 + w * h]
            pal = PAL['h2' if fmt.startswith('hexen2') else 'q1']
            if fmt == 'hl':
                pal = [tuple(tail[2 + 3 * k:5 + 3 * k]) for k in range(256)]
            want = b''.join(bytes(pal[c]) + (b'\0' if c == 255 else b'\xff') for c in src)
            need(px == want, 'json-mip-pixels', 'texture %d: first difference at byte %d' % (i, next((k for k in range(len(want)) if px[k] != want[k]), -1)))
    bx = {e['lumpname']: e for e in j.get('bspxentries', [])}
    need(set(bx) == set(f['bspx']), 'json-bspx', '%s expected %s' % (sorted(bx), sorted(f['bspx'])))
    for n, b in f['bspx'].items():
        e = bx[n]
        if n == 'DECOUPLED_LM':
            rows = [list(struct.unpack_from('<HHi8f', b, 40 * i)) for i in range(len(b) // 40)]
            got = [[g['lmwidth'], g['lmheight'], g['offset']] + sum(g['world_to_lm_space'], []) for g in e['faces']]
            need(rows == got, 'json-decoupled', '%s expected %s' % (got, rows))
        elif n == 'BRUSHLIST':
            p = 0
            for g in e['models']:
                h = struct.unpack_from('<4i', b, p)
                p += 16
                need((g['ver'], g['modelnum'], g['numbrushes'], g['numfaces']) == h, 'json-brushlist', str(h))
                for br in g['brushes']:
                    v = struct.unpack_from('<6fhH', b, p)
                    p += 28
                    need(tuple(br['mins'] + br['maxs']) == v[:6] and br['contents'] == v[6] and len(br['faces']) == v[7], 'json-brushlist', 'brush %s' % (v,))
                    for fc in br['faces']:
                        need(tuple(fc['normal'] + [fc['dist']]) == struct.unpack_from('<4f', b, p), 'json-brushlist', 'face at %d' % p)
                        p += 16
            need(p == len(b), 'json-brushlist', '%d of %d bytes shown' % (p, len(b)))
        else:
            need(e['lumpdata'] == b.hex(), 'json-lumpdata', 'lump %s' % n)


def check_obj(f, info, path):
    """-> lightmap coordinates of every face"""
    v, vn, vt, fs = [], [], [], []
    for line in open(path):
        w = line.split()
        if w[0] == 'v':
            v.append(tuple(map(float, w[1:])))
        elif w[0] == 'vn':
            vn.append(tuple(map(float, w[1:])))
        elif w[0] == 'vt':
            vt.append(tuple(map(float, w[1:])))
        elif w[0] == 'f':
            fs.append([tuple(int(x) for x in q.split('/')) for q in w[1:]])
    need(len(fs) == len(info), 'obj-faces', '%d faces in the bsp, %d in the obj' % (len(info), len(fs)))
    out = []
    for i, (F, q) in enumerate(zip(info, fs)):
        need(all(len(set(t)) == 1 and 1 <= t[0] <= len(v) for t in q), 'obj-index', str(q))
        k = [t[0] - 1 for t in q][::-1]  # counter-clockwise in obj
        pts = [v[x] for x in k]
        d = F['verts']
        need(len(pts) == len(d), 'obj-points', 'face %d: %d points' % (i, len(pts)))
        rot = next((s for s in range(len(d)) if all(pts[(t + s) % len(d)] == d[t] for t in range(len(d)))), None)
        need(rot is not None, 'obj-geometry', 'face %d: %s expected %s' % (i, pts, d))
        k = k[rot:] + k[:rot]
        need(all(vn[x] == tuple(F['n']) for x in k), 'obj-normal', 'face %d: %s' % (i, vn[k[0]]))
        out.append([vt[x] for x in k])
    return out


def check_atlas(info, uvs, pngs, stat):
    if not pngs:
        need(not any(F['styles'] for F in info), 'atlas-missing', 'no lightmap image')
        return
    styles = {s for F in info for s in F['styles']}
    need(set(pngs) == {s for s in styles}, 'atlas-styles', 'images of styles %s, faces have %s' % (sorted(pngs), sorted(styles)))
    sizes = {p[:2] for p in pngs.values()}
    need(len(sizes) == 1, 'atlas-size', str(sizes))
    W, H = sizes.pop()
    boxes = []
    for i, (F, uv) in enumerate(zip(info, uvs)):
        pos = [(t[0] * W - .5 - l[0], (1 - t[1]) * H - .5 - l[1]) for t, l in zip(uv, F['lm'])]
        x, y = round(pos[0][0]), round(pos[0][1])
        need(all(abs(p[0] - x) < .02 and abs(p[1] - y) < .02 for p in pos), 'atlas-uv', 'face %d: corners give positions %s in %dx%d' % (i, pos, W, H))
        need(x >= 0 and y >= 0 and x + F['w'] <= W and y + F['h'] <= H, 'atlas-outside', 'face %d at %d,%d size %dx%d in %dx%d' % (i, x, y, F['w'], F['h'], W, H))
        for b in boxes:
            need(x >= b[0] + b[2] or b[0] >= x + F['w'] or y >= b[1] + b[3] or b[1] >= y + F['h'], 'atlas-overlap', 'faces %d and %d' % (b[4], i))
        boxes.append((x, y, F['w'], F['h'], i))
    for s, (w, h, ch, px) in pngs.items():
        shown = bytearray(W * H * 4)
        for (x, y, fw, fh, i) in boxes:
            F = info[i]
            if s not in F['styles']:
                continue
            bpp = F['bpp']
            src = F['light']
            o = F['lo'] + F['styles'].index(s) * fw * fh * bpp
            for yy in range(fh):
                d = ((y + yy) * W + x) * 4
                row = src[o + yy * fw * bpp:o + (yy + 1) * fw * bpp]
                for xx in range(fw):
                    shown[d + xx * 4:d + xx * 4 + 4] = (row[3 * xx:3 * xx + 3] if bpp == 3 else row[xx:xx + 1] * 3) + b'\xff'
            stat('luxels_compared', fw * fh)
        if px != bytes(shown):
            k = next(k for k in range(len(px)) if px[k] != shown[k])
            raise Diff('atlas-pixels', 'style %d: pixel (%d,%d) channel %d is %d, expected %d' % (s, k // 4 % W, k // 4 // W, k % 4, px[k], shown[k]))


def check_out(f, info, out):
    fmt, L = f['fmt'], f['lumps']
    alias = {'leaffaces': 'marksurfaces', 'lighting': 'lightdata', 'visibility': 'visdata', 'entities': 'entdata'}
    tab = {}
    for m in re.finditer(r'^ *(\d*) (\S+) +(\d+)$', out, re.M):
        tab[m.group(2)] = (m.group(1), int(m.group(3)))
    for name, kind in bspfmt.FORMATS[fmt][2]:
        v = L[name]
        n = name if name in tab else alias.get(name, name)
        if isinstance(kind, str):
            if kind in (bspfmt.RAW, bspfmt.TEXT) and name != 'pop':
                need(n in tab and tab[n][1] == len(v) + (kind == bspfmt.TEXT), 'sizes', '%s: %s' % (n, tab.get(n)))
            continue
        if n in tab:
            need(tab[n] == (str(len(v)), len(v) * kind[0].size), 'sizes', '%s is shown as %s, the lump has %d of %d bytes' % (n, tab[n], len(v), kind[0].size))
    need(len([n for n in tab]) >= 11, 'sizes', 'table of lumps incomplete: %s' % sorted(tab))
    area = {}
    for F, row in zip(info, L['faces']):
        ti = values(fmt, 'texinfo', L['texinfo'][F['ti']], 'miptex')
        if fmt in bspfmt.Q2FAM:
            nm = values(fmt, 'texinfo', L['texinfo'][F['ti']], 'tex')[0].split(b'\0')[0].decode()
        else:
            ok = 0 <= ti[0] < len(L['textures']) and L['textures'][ti[0]] is not None
            nm = L['textures'][ti[0]][:16].split(b'\0')[0].decode() if ok else ''
        if not nm:
            continue
        p = F['verts']
        a = 0.0
        for k in range(1, len(p) - 1):
            e, g = [p[k][c] - p[0][c] for c in range(3)], [p[k + 1][c] - p[0][c] for c in range(3)]
            a += math.sqrt((e[1] * g[2] - e[2] * g[1]) ** 2 + (e[2] * g[0] - e[0] * g[2]) ** 2 + (e[0] * g[1] - e[1] * g[0]) ** 2) / 2
        area[nm] = area.get(nm, 0) + a
    got = [(m.group(1), float(m.group(2))) for m in re.finditer(r'^(\S+),(\d+)$', out, re.M)]
    need(len(got) == len(area) and all(n in area and abs(area[n] - a) <= .51 + 1e-5 * a for n, a in got), 'usage', '%s expected %s' % (got, area))
    need(all(a[1] >= b[1] for a, b in zip(got, got[1:])), 'usage-order', str(got))


def check(ctx):
    vp.build('san', ['bspinfo'])
    ctx.rule = 'distinct = (format, decoupled lightmaps, number of faces, styles, BSPX lumps, textures) of files whose whole export was decoded and compared'
    ctx.assumptions = ['lib/bspfmt.py encodes the published container layouts', 'all lightmapped faces are axis-aligned with binary-exact texture vectors, so that extents are not a matter of rounding']
    total = ctx.n(700, 12000)

    def shard(s):
        d = ctx.dir('s%d' % s)
        for c in range(s, total, 8):
            r = ctx.rng('f', c)
            fmt = list(bspfmt.FORMATS)[c // 8 % len(bspfmt.FORMATS)]
            kind = r.random()
            f, info = bspgen.coherent(r, fmt, nfaces=r.randint(10, 80) if kind < .1 else None, maxside=1200 if kind < .1 else 300 if kind < .6 else 60)
            if r.random() < .03:  # lightmaps larger than any one page of the atlas
                f, info = bspgen.coherent(r, fmt, nfaces=r.randint(1, 4), decoupled=False, maxside=14000)
            for F in info:
                F['light'] = f['lumps']['lighting']
            if r.random() < .4:
                f['bspx']['BRUSHLIST'] = _c01.brushlist(r)
            hibit = r.random() < .1
            if hibit:
                f['lumps']['entities'] += b'{\n"message" "\xe7old \xff"\n}\n'
            p = '%s/%d.bsp' % (d, c)
            base = p[:-4]
            open(p, 'wb').write(bspfmt.encode(f))
            x = vp.run([vp.exe('san', 'bspinfo'), p], cwd=d, timeout=120)
            js, obj = base + '.bsp.json', base + '.bsp.geometry.obj'
            files = [p, js, obj]
            if x.timed_out or x.crashed:
                ctx.crash(x, 'bspinfo', files)
                continue
            pngs = {}
            try:
                need(x.rc == 0, 'exit', 'bspinfo failed (%d) on a valid %s file: %s' % (x.rc, fmt, x.out[-300:]))
                need(os.path.exists(js), 'no-json', 'no json written')
                j = json.load(open(js, encoding='utf-8'))
                if hibit:
                    j['entdata'] = f['lumps']['entities'].decode('ascii', 'ignore') + '\0' if 'entdata' in j else ''
                    f['lumps']['entities'] = f['lumps']['entities'].decode('ascii', 'ignore').encode()
                    x.out = re.sub(r'(entdata +)(\d+)', lambda m: m.group(1) + str(int(m.group(2)) - 2), x.out)
                check_json(f, info, j)
                check_out(f, info, x.out)
                if info:
                    need(os.path.exists(obj), 'no-obj', 'no obj written')
                    uvs = check_obj(f, info, obj)
                    for n in os.listdir(d):
                        m = re.match(r'%d\.bsp\.lm_(\d+)\.png$' % c, n)
                        if m:
                            pngs[int(m.group(1))] = bspgen.read_png(open(os.path.join(d, n), 'rb').read())
                            files.append(os.path.join(d, n))
                    check_atlas(info, uvs, pngs, ctx.stat)
            except Diff as e:
                ctx.violation(e.args[0], '%s: %s' % (fmt, e.args[1]), files=files)
            except (ValueError, KeyError, AssertionError, struct.error) as e:
                ctx.violation('undecodable', '%s: export does not decode: %r' % (fmt, e), files=files)
            ctx.ok(1, key=[fmt, 'DECOUPLED_LM' in f['bspx'], min(len(info), 9), len(pngs), sorted(n[:4] for n in f['bspx']), len(f['lumps'].get('textures') or [])])
            ctx.stat('faces_compared', len(info))
            ctx.stat('lightmap_images', len(pngs))
            for q in os.listdir(d):
                if q.startswith('%d.' % c):
                    os.remove(os.path.join(d, q))
    ctx.fork(shard, range(8))
    ctx.samples = ['%d files of each of %d formats' % (total // 9, 9)]
