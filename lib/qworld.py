"""Random worlds for qbsp, an exact model of what they contain (independent of /repo's code), and views of the compiled BSP."""
import os, re
import numpy as np
import vp, bspfmt
from qmap import Side, Ent, write, brush_polys, poly_area
from mapgen import box_sides, convex_sides

# content bits of the model
S, SKY, DS, DW = 1 << 40, 1 << 41, 1 << 42, 1 << 43   # structural solid, sky, detail solid, detail wall
WIN, AUX, LAVA, SLIME, WATER, MIST = 2, 4, 8, 16, 32, 64
PCLIP, MCLIP, DETAIL, TRANS, LADDER, AREAP = 0x10000, 0x20000, 0x8000000, 0x10000000, 0x20000000, 0x8000
SEAL = S | SKY
# how far each hull grows a brush (Quake's player box -16 -16 -24 .. 16 16 32 grows it by 32 below and 24 above)
Q1HULLS = [None, ((-16, -16, -32), (16, 16, 24)), ((-32, -32, -64), (32, 32, 24))]
HLHULLS = [None, ((-16, -16, -36), (16, 16, 36)), ((-32, -32, -32), (32, 32, 32)), ((-16, -16, -18), (16, 16, 18))]
H2HULLS = [None, ((-16, -16, -32), (16, 16, 24)), ((-24, -24, -20), (24, 24, 20)), ((-16, -16, -16), (16, 16, 12)), ((-8, -8, -8), (8, 8, 8)), ((-28, -28, -40), (28, 28, 40))]
GAMES = {'bsp29': ('q1', []), 'bsp2': ('q1', ['-bsp2']), 'bsp2rmq': ('q1', ['-2psb']), 'hl': ('hl', ['-hlbsp']), 'hexen2': ('h2', ['-hexen2']),
         'hexen2bsp2': ('h2', ['-hexen2', '-bsp2']), 'q2bsp': ('q2', ['-q2bsp']), 'qbism': ('q2', ['-qbism'])}


class WB:
    """one brush: class, bits, sides; lo/hi for axial ones"""
    def __init__(self, cls, sides, lo=None, hi=None):
        self.cls, self.sides, self.lo, self.hi = cls, sides, lo, hi
        self.pl = [s.plane() for s in sides]
        self.ent = None

    def inside(self, pts, margin=0.0):
        ok = np.ones(len(pts), bool)
        for n, d in self.pl:
            ok &= pts @ n - d < -margin
        return ok


# class -> (entity classname or None, texture chooser, surface info (Q2), bits)
Q1CLS = {
    'solid': ('', 'wall', S), 'group': ('func_group', 'wall', S), 'sky': ('', 'sky', SKY), 'water': ('', '*water', WATER), 'slime': ('', '*slime', SLIME),
    'lava': ('', '*lava', LAVA), 'clip': ('', 'clip', 0), 'hint': ('', 'hint', 0), 'skip': ('', 'skip', S), 'super': ('func_group _super_detail', 'wall', 0),
    'detail': ('func_detail', 'det', DS), 'fence': ('func_detail_fence', '{fence', WIN | DETAIL), 'dwall': ('func_detail_wall', 'dwall', DW),
    'illus': ('func_detail_illusionary', 'ill', MIST), 'dwater': ('func_detail', '*water', WATER)}
Q2CLS = {
    'solid': ('', 'wall', S, (0, 0, 0)), 'group': ('func_group', 'wall', S, (1, 0, 0)), 'sky': ('', 'sky', S, (1, 4, 0)), 'water': ('', 'water', WATER, (32, 8, 0)),
    'slime': ('', 'slime', SLIME, (16, 8, 0)), 'lava': ('', 'lava', LAVA, (8, 9, 300)), 'transwater': ('', 'water', WATER | TRANS | DETAIL, (32, 8 | 16, 0)),
    'mist': ('', 'mist', MIST | TRANS | DETAIL, (64, 32, 0)), 'window': ('', 'window', WIN | TRANS | DETAIL, (2, 16, 0)), 'glass': ('', 'glass', WIN | TRANS | DETAIL, (1, 32, 0)),
    'aux': ('', 'aux', AUX | DETAIL, (4, 0, 0)), 'clip': ('', 'clip', PCLIP | DETAIL, (PCLIP, 128, 0)), 'mclip': ('', 'mclip', MCLIP | PCLIP | DETAIL, (MCLIP | PCLIP, 128, 0)),
    'hint': ('', 'hint', 0, (0, 256, 0)), 'skip': ('', 'skip', S, (1, 128, 0)), 'detail': ('func_detail', 'det', DS, (1, 0, 0)), 'detailbit': ('', 'det', DS, (DETAIL | 1, 0, 0)),
    'fence': ('func_detail_fence', 'fence', WIN | TRANS | DETAIL, (1, 0, 0)), 'dwall': ('func_detail_wall', 'dwall', DW, (1, 0, 0)),
    'illus': ('func_detail_illusionary', 'ill', MIST | DETAIL, (1, 0, 0)), 'current': ('', 'water', WATER | 0x40000, (32 | 0x40000, 8, 0)), 'ladder': ('', 'wall', S, (1 | LADDER, 0, 0)), 'super': ('func_group _super_detail', 'wall', 0, (1, 0, 0))}


class World:
    def __init__(self, game):
        self.game = game
        self.q2 = game == 'q2'
        self.cls = Q2CLS if self.q2 else Q1CLS
        self.world = Ent([('classname', 'worldspawn')])
        self.brushes, self.models, self.points, self.groups, self.order = [], [], [], [], []
        self.axial = True
        self.omit = set()

    def bits(self, cls):
        return self.cls[cls][2]

    def tex(self, r, cls):
        c = self.cls[cls]
        t = c[1]
        if t in ('clip', 'skip', 'hint') or t == 'mclip':
            return t
        return t + str(r.randint(1, 3))

    def add(self, r, cls, lo, hi, sides=None, model=None, tex=None):
        info = self.cls[cls][3] if self.q2 else None
        if sides is None:
            t = tex or self.tex(r, cls)
            texes = {i: self.tex(r, cls) for i in range(6)} if r.random() < .3 and t not in ('hint',) else None
            if cls == 'hint' and not self.q2 and r.random() < .5:
                texes = {i: 'hintskip' for i in range(6) if r.random() < .6}
            sides = box_sides(lo, hi, t, info, texes)
            if cls == 'hint' and self.q2 and r.random() < .5:
                for s in sides:
                    if r.random() < .6:
                        s.info = (0, 512, 0)
        b = WB(cls, sides, lo, hi)
        b.order = len(self.brushes)
        if model is not None:
            b.model = model
            model.wb.append(b)
        else:
            b.model = None
            self.brushes.append(b)
        return b

    def finish(self, r):
        """distribute brushes over entities"""
        ents, groups = [self.world], {}
        self.world.brushes = []
        for b in self.brushes:
            c = self.cls[b.cls][0]
            if not c:
                self.world.brushes.append(b.sides)
                continue
            g = groups.setdefault(c, [])
            if not g or r.random() < .4:
                g.append(Ent([('classname', c.split()[0])] + [(k, '1') for k in c.split()[1:]]))
                ents.append(g[-1])
            g[-1].brushes.append(b.sides)
        for m in self.models:
            m.brushes = [b.sides for b in m.wb]
            ents.append(m)
        self.entlist = ents[:1]
        rest = ents[1:] + self.points
        r.shuffle(rest)
        self.entlist += rest
        return self

    def text(self):
        return write(self.entlist)

    # -------------------------------------------------------------- exact contents
    def bits_at(self, pts, margin):
        """(bits, certain) at points; certain is False within margin of a brush boundary"""
        bits = np.zeros(len(pts), np.int64)
        sure = np.ones(len(pts), bool)
        for b in self.brushes:
            a = b.inside(pts, margin)
            c = b.inside(pts, -margin)
            bits[a] |= self.bits(b.cls)
            sure &= a == c
        return bits, sure

    def native(self, bits):
        bits = np.asarray(bits, np.int64)
        if self.q2:
            out = bits & 0xffffffff
            return np.where(bits & (S | DS | DW) != 0, 1, out)
        out = np.full(bits.shape, -1, np.int64)
        for bit, v in ((WATER, -3), (SLIME, -4), (LAVA, -5), (WIN, -2), (DW, -2), (DS, -2), (SKY, -6), (S, -2)):
            out = np.where(bits & bit != 0, v, out)
        return out

    def grid(self, hull=None, extra=()):
        """cells of an axial world: coordinates per axis and bits per cell"""
        G = {}
        boxes = []
        for b in self.brushes:
            bt = self.bits(b.cls)
            if hull is None:
                if b.cls in ('hint', 'super') or b.cls in self.omit or (b.cls == 'clip' and not self.q2):
                    continue
                boxes.append((b.lo, b.hi, bt))
            else:
                if b.cls in self.omit:
                    continue
                if b.cls in ('clip', 'super') or bt & (S | SKY | DS | DW | WIN):
                    mn, mx = hull
                    boxes.append(([b.lo[i] + mn[i] for i in range(3)], [b.hi[i] + mx[i] for i in range(3)], S))
        cs = []
        for i in range(3):
            v = sorted({x for lo, hi, _ in boxes for x in (lo[i], hi[i])} | {x[i] for x in extra})
            cs.append(np.array([v[0] - 64.0] + v + [v[-1] + 64.0]))
        bits = np.zeros([len(c) - 1 for c in cs], np.int64)
        for lo, hi, bt in boxes:
            sl = tuple(slice(int(np.searchsorted(cs[i], lo[i])), int(np.searchsorted(cs[i], hi[i]))) for i in range(3))
            bits[sl] |= bt
        return cs, bits

    def cell(self, cs, p):
        """index of the cell containing p; None when on a boundary"""
        ix = []
        for i in range(3):
            k = int(np.searchsorted(cs[i], p[i], 'right')) - 1
            if k < 0 or k >= len(cs[i]) - 1 or cs[i][k] == p[i]:
                return None
            ix.append(k)
        return tuple(ix)

    def occupied(self, cs, bits, seal):
        out = []
        for e in self.points:
            o = e.get('origin')
            if not o or e.get('_nofill') == '1' or e.get('_lightgrid_hint') == '1':
                continue
            p = [float(x) for x in o.split()]
            c = self.cell(cs, p)
            if c is not None and not bits[c] & seal:
                out.append(c)
        return out


def reclass(w, **bits):
    w.cls = dict(w.cls)
    for k, v in bits.items():
        if k in w.cls:
            c = list(w.cls[k])
            c[2] = v
            w.cls[k] = tuple(c)


def nodetail(w):
    """-nodetail: detail brushes count as structural ones"""
    reclass(w, **{k: c[2] & ~DETAIL for k, c in w.cls.items()})
    reclass(w, detail=S, detailbit=S, fence=S, dwall=S, illus=S, dwater=WATER)


def omitdetail(w, which):
    """-omitdetail*: those brushes are not there"""
    ks = {'-omitdetail': [k for k, c in w.cls.items() if c[0].startswith('func_detail') or c[2] & (DETAIL | DS | DW)], '-omitdetailwall': ['dwall'],
          '-omitdetailfence': ['fence'], '-omitdetailillusionary': ['illus']}[which]
    w.omit |= set(ks)
    reclass(w, **{k: 0 for k in ks})


def flood(passable, starts):
    """cells reachable through shared faces"""
    reach = np.zeros(passable.shape, bool)
    for s in starts:
        reach[s] = True
    while True:
        n = reach.copy()
        for a in range(3):
            src = [slice(None)] * 3
            dst = [slice(None)] * 3
            src[a], dst[a] = slice(0, -1), slice(1, None)
            n[tuple(dst)] |= reach[tuple(src)]
            n[tuple(src)] |= reach[tuple(dst)]
        n &= passable | reach
        # a start inside an impassable cell does not spread
        if (n == reach).all():
            return reach
        reach = n


# ------------------------------------------------------------------ generation
def gen(r, game, kind='grid', leak=.12, nbrush=None, models=True, classes=None, closed=.3, drop=()):
    w = World(game)
    w.kind = kind
    g = r.choice([8, 16, 16, 32, 64])
    n = r.randint(6, 14) if g < 64 else r.randint(4, 8)
    half = [g * r.randint(max(3, n // 2), n) for _ in range(3)]
    t = r.choice([8, 16, 16, 40])
    off = [r.choice([0, 0, 16 * r.randint(-20, 20)]) for _ in range(3)]
    R = lambda a, b: r.randint(a, b)
    w.half, w.off, w.g = half, off, g

    def B(cls, lo, hi, **k):
        lo2 = [float(lo[i] + off[i]) for i in range(3)]
        hi2 = [float(hi[i] + off[i]) for i in range(3)]
        if any(a >= b for a, b in zip(lo2, hi2)):
            return None
        return w.add(r, cls, lo2, hi2, **k)
    # shell: six slabs, some split, one possibly with a hole
    leaky = r.random() < leak
    w.leaky = leaky
    hole = R(0, 5) if leaky else -1
    for i in range(6):
        a, top = i // 2, i % 2
        lo = [-half[k] - t for k in range(3)]
        hi = [half[k] + t for k in range(3)]
        if r.random() < .5:      # do not overlap at the corners
            for k in range(a + 1, 3):
                pass
        lo[a], hi[a] = (half[a], half[a] + t) if top else (-half[a] - t, -half[a])
        cls = 'sky' if r.random() < .2 else 'skip' if r.random() < .05 else 'solid'
        u, v = [k for k in range(3) if k != a]
        if i == hole:
            hlo = {k: g * R(-half[k] // g, half[k] // g - 1) for k in (u, v)}
            hhi = {k: min(half[k], hlo[k] + g * R(1, 3)) for k in (u, v)}
            # four pieces around the hole
            p = []
            l, h = lo[:], hi[:]
            h[u] = hlo[u]
            p.append((l, h))
            l, h = lo[:], hi[:]
            l[u] = hhi[u]
            p.append((l, h))
            l, h = lo[:], hi[:]
            l[u], h[u], h[v] = hlo[u], hhi[u], hlo[v]
            p.append((l, h))
            l, h = lo[:], hi[:]
            l[u], h[u], l[v] = hlo[u], hhi[u], hhi[v]
            p.append((l, h))
            for l, h in p:
                B(cls, l, h)
        elif r.random() < .3:
            c = g * R(-half[u] // g + 1, half[u] // g - 1)
            ov = r.choice([0, 0, 4])
            l, h = lo[:], hi[:]
            h[u] = c + ov
            B(cls, l, h)
            l, h = lo[:], hi[:]
            l[u] = c
            B(r.choice([cls, 'solid']), l, h)
        else:
            B(cls, lo, hi)
    # dividing walls with doorways
    for _ in range(R(0, 3)):
        a = R(0, 2)
        u, v = [k for k in range(3) if k != a]
        c = g * R(-half[a] // g + 1, half[a] // g - 2) if half[a] // g > 2 else 0
        th = r.choice([g, 8])
        lo = [-half[k] for k in range(3)]
        hi = [half[k] for k in range(3)]
        lo[a], hi[a] = c, c + th
        cls = r.choice(['solid', 'solid', 'solid', 'detail', 'group'])
        if r.random() < closed:
            B(cls, lo, hi)
            continue
        du = g * R(-half[u] // g, half[u] // g - 1)
        dv = g * R(-half[v] // g, half[v] // g - 1)
        eu, ev = min(half[u], du + g * R(1, 2)), min(half[v], dv + g * R(1, 3))
        for l, h in (((None, None), (du, None)), ((eu, None), (None, None)), ((du, None), (eu, dv)), ((du, ev), (eu, None))):
            L, H = lo[:], hi[:]
            for k, x in zip((u, v), l):
                if x is not None:
                    L[k] = x
            for k, x in zip((u, v), h):
                if x is not None:
                    H[k] = x
            B(cls, L, H)
    # interior
    pool = classes or (['solid'] * 5 + ['group', 'detail', 'detail', 'fence', 'dwall', 'illus', 'water', 'water', 'slime', 'lava', 'clip', 'sky', 'hint', 'skip', 'super'] +
                       (['transwater', 'mist', 'window', 'glass', 'aux', 'mclip', 'detailbit', 'current', 'ladder'] if w.q2 else ['dwater']))
    pool = [x for x in pool if x not in drop]
    nb = R(0, 22) if nbrush is None else nbrush
    for _ in range(nb):
        cls = r.choice(pool)
        s = r.choice([g, g, 8]) if g > 8 else 8
        lo = [s * R(-half[k] // s, half[k] // s - 1) for k in range(3)]
        hi = [min(half[k], lo[k] + s * R(1, max(1, 2 * half[k] // s // r.choice([1, 2, 4])))) for k in range(3)]
        if cls in ('water', 'slime', 'lava') and r.random() < .4:   # a pool over the whole floor
            lo = [-half[k] for k in range(3)]
            hi = [half[0], half[1], lo[2] + s * R(1, 3)]
        if kind == 'convex' and r.random() < .7:
            L = [float(lo[k] + off[k]) for k in range(3)]
            H = [float(hi[k] + off[k]) for k in range(3)]
            if min(H[k] - L[k] for k in range(3)) < 16:
                continue
            sd = convex_sides(r, L, H, w.tex(r, cls), R(1, 5), w.cls[cls][3] if w.q2 else None)
            w.add(r, cls, L, H, sides=sd)
            w.axial = False
        else:
            B(cls, lo, hi)
    # brush models
    if models:
        for k in range(R(0, 2)):
            m = Ent([('classname', r.choice(['func_wall', 'func_door', 'trigger_once', 'func_illusionary']))])
            m.wb = []
            for _ in range(R(1, 2)):
                lo = [g * R(-half[i] // g, half[i] // g - 1) for i in range(3)]
                hi = [lo[i] + g * R(1, 3) for i in range(3)]
                B(r.choice(['solid', 'solid', 'water']), lo, hi, model=m)
            if r.random() < .3:
                m.kv.append(('_mirrorinside', '1'))
            w.models.append(m)
    # point entities
    bits_of = lambda p: w.bits_at(np.array([p], float), .01)[0][0]
    placed = 0
    for i in range(R(1, 4)):
        for _ in range(60):
            p = [R(-half[k] + 1, half[k] - 1) + off[k] + .5 for k in range(3)]
            b = bits_of(p)
            if b & (S | SKY | DS | DW | WIN):
                continue
            if max(abs(x) for x in p) < 1:
                continue
            w.points.append(Ent([('classname', 'info_player_start' if not placed else r.choice(['light', 'monster_army', 'item_health'])), ('origin', '%g %g %g' % tuple(p))]))
            placed += 1
            break
    w.placed = placed
    if r.random() < .1:   # an entity outside never counts unless it can get in
        pass
    w.finish(r)
    return w


# ------------------------------------------------------------------ running
def qbsp(d, w, name, args=(), env=None, text=None, timeout=120, keep=None):
    p = os.path.join(d, name)
    if text is None:
        text = w.text()
    open(p + '.map', 'w', encoding='latin-1').write(text)
    for e in ('.bsp', '.prt', '.pts', '.texinfo.json'):
        try:
            os.remove(p + e)
        except OSError:
            pass
    for e, t in (keep or {}).items():
        open(p + e, 'w').write(t)
    base = [] if '-verbose' in args else ['-nopercent', '-nostat']
    r = vp.run([vp.exe('san', 'qbsp')] + base + ['-nolog', '-nodefaultpaths'] + list(args) + [p + '.map', p + '.bsp'], cwd=d, timeout=timeout, env=dict({'VP_SCHED': 'serial'}, **(env or {})))
    r.base = p
    return r


class Bsp:
    def __init__(self, path, fmt=None):
        self.raw = bspfmt.load(path, fmt)
        self.fmt = self.raw['fmt']
        self.L = self.raw['lumps']
        self.spec = dict(bspfmt.FORMATS[self.fmt][2])
        self.q2 = self.fmt in bspfmt.Q2FAM
        self._c = {}
        pl = np.array(self.L['planes'], float).reshape(-1, 5)
        self.pn, self.pd, self.pt = pl[:, :3], pl[:, 3], pl[:, 4].astype(int)
        self.verts = np.array(self.L['vertexes'], float).reshape(-1, 3)
        self.edges = np.array(self.L['edges'], np.int64).reshape(-1, 2)
        self.surfedges = np.array(self.L['surfedges'], np.int64).reshape(-1)
        self.kids = np.stack([self.col('nodes', 'kids0'), self.col('nodes', 'kids1')], 1).astype(np.int64) if self.L['nodes'] else np.zeros((0, 2), np.int64)
        self.nplane = self.col('nodes', 'plane').astype(np.int64)
        self.cont = self.col('leafs', 'cont').astype(np.int64)
        if not self.q2:
            k = np.stack([self.col('clipnodes', 'ckids0'), self.col('clipnodes', 'ckids1')], 1).astype(np.int64) if self.L['clipnodes'] else np.zeros((0, 2), np.int64)
            if 'H' in self.spec['clipnodes'][2]:
                k = np.where(k > 0xfff0, k - 0x10000, k)
            self.ckids = k
            self.cplane = self.col('clipnodes', 'plane').astype(np.int64)

    def col(self, lump, name):
        key = (lump, name)
        if key not in self._c:
            i = self.spec[lump][1].index(name)
            self._c[key] = np.array([rec[i] for rec in self.L[lump]])
        return self._c[key]

    def cols(self, lump, name, n):
        return np.stack([self.col(lump, name + str(i)) for i in range(n)], 1) if self.L[lump] else np.zeros((0, n))

    def head(self, m, hull=0):
        return int(self.col('models', 'head%d' % hull)[m])

    def leafs_at(self, pts, m=0):
        idx = np.full(len(pts), self.head(m), np.int64)
        for _ in range(100000):
            a = idx >= 0
            if not a.any():
                break
            k = idx[a]
            p = self.nplane[k]
            d = (pts[a] * self.pn[p]).sum(1) - self.pd[p]
            idx[a] = np.where(d >= 0, self.kids[k, 0], self.kids[k, 1])
        return -1 - idx

    def contents_at(self, pts, m=0):
        return self.cont[self.leafs_at(pts, m)]

    def hull_at(self, pts, m, hull):
        h = self.head(m, hull)
        idx = np.full(len(pts), h, np.int64)
        for _ in range(100000):
            a = idx >= 0
            if not a.any():
                break
            k = idx[a]
            p = self.cplane[k]
            d = (pts[a] * self.pn[p]).sum(1) - self.pd[p]
            idx[a] = np.where(d >= 0, self.ckids[k, 0], self.ckids[k, 1])
        return idx

    def face_poly(self, f):
        if not hasattr(self, '_fe'):
            self._fe, self._ne = self.col('faces', 'fe').astype(int), self.col('faces', 'ne').astype(int)
        se = self.surfedges[self._fe[f]:self._fe[f] + self._ne[f]]
        v = np.where(se >= 0, self.edges[np.abs(se), 0], self.edges[np.abs(se), 1])
        return self.verts[v]

    def face_plane(self, f):
        p, s = int(self.col('faces', 'plane')[f]), int(self.col('faces', 'side')[f])
        return (-self.pn[p], -self.pd[p]) if s else (self.pn[p], self.pd[p])

    def tex_name(self, f):
        ti = self.L['texinfo'][int(self.col('faces', 'ti')[f])]
        sp = self.spec['texinfo'][1]
        if self.q2:
            return ti[sp.index('tex')].split(b'\0')[0].decode('latin1')
        mt = ti[sp.index('miptex')]
        t = (self.L['textures'] or [])
        if mt < 0 or mt >= len(t) or t[mt] is None:
            return None
        return t[mt][:16].split(b'\0')[0].decode('latin1')

    def tex_vecs(self, f):
        ti = self.L['texinfo'][int(self.col('faces', 'ti')[f])]
        return np.array(ti[:8], float).reshape(2, 4)

    def entities(self):
        from qmap import parse
        return parse(self.L['entities'])


def load_prt(path, q2):
    """(clusters, portals [(points, (a, b))], cluster of each leaf or None)"""
    t = open(path).read().split('\n')
    magic = t[0].strip()
    if magic == 'PRT1':
        nc, npn, k, real = int(t[1]), int(t[2]), 3, None
    elif magic == 'PRT2':
        real, nc, npn, k = int(t[1]), int(t[2]), int(t[3]), 4
    elif magic == 'PRT1-AM':
        nc, npn, real, k = int(t[1]), int(t[2]), int(t[3]), 4
    else:
        raise bspfmt.BadFile('portal file header ' + magic)
    por = []
    for i in range(npn):
        l = t[k + i]
        h, rest = l.split('(', 1)
        n, a, b = (int(x) for x in h.split())
        pts = [tuple(float(x) for x in q.split()) for q in re.findall(r'\(([^)]*)\)', '(' + rest)]
        if len(pts) != n:
            raise bspfmt.BadFile('portal %d has %d points, says %d' % (i, len(pts), n))
        por.append((np.array(pts), (a, b)))
    rest = ' '.join(t[k + npn:]).split()
    cl = None
    if magic == 'PRT2':
        cl, c = [None] * real, 0
        for x in rest:
            x = int(x)
            if x < 0:
                c += 1
            else:
                cl[x] = c
    elif magic == 'PRT1-AM':
        cl = [int(x) for x in rest]
    elif not q2:
        cl = list(range(nc))
    return magic, nc, por, cl
