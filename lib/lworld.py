"""Worlds for the light tool, a reader of what it wrote, and an exact model of direct light."""
import math, os, re, struct
import numpy as np
import vp, bspfmt
from qworld import *
from qmap import Ent

RGB = ('hl', 'q2bsp', 'qbism')          # lightmaps in the .bsp have three bytes
FORMATS = {k: v for k, v in GAMES.items() if k != 'hexen2bsp2'}


def room(r, game, kind='grid', sky=.35, nbrush=None):
    """sealed world of solid brushes (and sky) with empty space only, models that may cast shadows"""
    for _ in range(40):
        w = gen(r, game, kind, leak=0, models=False, classes=['solid', 'solid', 'group', 'detail'] + ['sky'] * (r.random() < sky), drop=('super',), closed=.1,
                nbrush=r.randint(1, 9) if nbrush is None else nbrush)
        if w.placed and np.prod(2 * np.array(w.half)) < 9e7 and max(w.half) <= 512:
            break
    for b in w.brushes:
        for s in b.sides:
            if s.tex in ('skip', 'hint', 'hintskip'):
                s.tex = 'wall1'
                if w.q2:
                    s.info = (1, 0, 0)
        if b.cls == 'skip':
            b.cls = 'solid'
    w.points = w.points[:1]
    lo = [w.off[k] - w.half[k] for k in range(3)]
    hi = [w.off[k] + w.half[k] for k in range(3)]
    w.lo, w.hi = np.array(lo, float), np.array(hi, float)
    return w


def free_point(r, w, reach=None, margin=6, tries=200):
    for _ in range(tries):
        p = np.array([r.uniform(w.lo[k] + margin, w.hi[k] - margin) for k in range(3)])
        if r.random() < .5:
            # rays exactly along the edge between two triangles may slip through (Embree's default mode)
            p = np.round(p) + .37
        if any(b.inside(p[None], -margin)[0] for b in w.brushes + [x for m in w.models for x in m.wb]):
            continue
        if reach is not None and not reach(p):
            continue
        return p
    return None


def models(r, w, n):
    """free standing brush entities"""
    for k in range(n):
        for _ in range(30):
            s = [r.choice([16, 24, 32, 64]) for _ in range(3)]
            lo = [8 * round(r.uniform(w.lo[i], max(w.lo[i], w.hi[i] - s[i])) / 8) + 4 for i in range(3)]
            hi = [lo[i] + s[i] for i in range(3)]
            if any((np.array(lo) < np.array(b.hi) + 8).all() and (np.array(hi) > np.array(b.lo) - 8).all() for b in w.brushes + [x for m in w.models for x in m.wb]):
                continue
            m = Ent([('classname', r.choice(['func_wall', 'func_door', 'func_train']))])
            m.wb = []
            w.add(r, 'solid', [float(x) for x in lo], [float(x) for x in hi], model=m)
            m.shadow, m.swstyle, m.channel, m.key = r.choice(['', '1', '1', '1', '0', 'self', 'world', 'switch', 'channel']), 0, 1, 'm%d' % len(w.models)
            m.kv.append(('netname', m.key))
            if m.shadow in ('0', '1'):
                m.kv.append(('_shadow', m.shadow))
            elif m.shadow == 'self':
                m.kv.append((r.choice(['_shadowself', '_selfshadow']), '1'))
            elif m.shadow == 'world':
                m.kv.append(('_shadowworldonly', '1'))
            elif m.shadow == 'switch':
                m.kv.append(('_switchableshadow', '1'))
                if r.random() < .6:
                    m.kv.append(('targetname', r.choice(['sa', 'sb', 'sc'])))
            elif m.shadow == 'channel':
                m.channel = r.choice([2, 2, 3, 4, 6])
                m.kv.append(('_object_channel_mask', str(m.channel)))
            w.models.append(m)
            break


def light(d, path, args=(), env=None, timeout=240):
    r = vp.run([vp.exe('san', 'light'), '-nopercent', '-nostat', '-noprogress', '-nocolor', '-nolog', '-nodefaultpaths'] + list(args) + [path], cwd=d, timeout=timeout, env=dict({'VP_SCHED': 'serial'}, **(env or {})))
    r.base = path[:-4]
    return r


# ------------------------------------------------------------------ lightmaps
class Luxels:
    """layout of one face's lightmap: size, world position of (s, t) luxel coordinates"""
    def __init__(self, b, f, scale=16.0):
        P = b.face_poly(f)
        v = b.tex_vecs(f)
        n, d = b.face_plane(f)
        uv = P @ v[:, :3].T + v[:, 3]
        q = uv / scale
        lo, hi = np.floor(q.min(0)), np.ceil(q.max(0))
        # rounding in single precision may decide where a vertex lies (nearly) on a luxel line
        e = np.abs(q - np.round(q))
        self.exact = self.sure = not ((e > 0) & (e < 2e-4)).any()
        self.lo = lo
        self.w, self.h = int(hi[0] - lo[0]) + 1, int(hi[1] - lo[1]) + 1
        self.n, self.poly = n, P
        M = np.array([v[0, :3], v[1, :3], n])
        self.det = np.linalg.det(M)
        if abs(self.det) > 1e-9:
            self.inv = np.linalg.inv(M)
            self.off = np.array([v[0, 3], v[1, 3], -d])
        self.scale = scale
        self.v = v
        # slivers do not tell inside from outside
        for a, c in zip(P, np.roll(P, -1, 0)):
            l = np.linalg.norm(c - a)
            if l > 1e-6:
                k = (P - a) @ np.cross(n, (c - a) / l)
                self.sure &= bool(min(k.max(), -k.min()) < .05 and np.abs(k).max() > 1)

    def world(self, s, t):
        """points one unit above the face"""
        x = np.stack([(self.lo[0] + s) * self.scale, (self.lo[1] + t) * self.scale, np.zeros_like(s)], -1)
        return (x - self.off) @ self.inv.T + self.n

    def inside(self, P, margin):
        Q = self.poly
        ok = np.ones(P.shape[:-1], bool)
        for a, c in zip(Q, np.roll(Q, -1, 0)):
            e = c - a
            l = np.linalg.norm(e)
            if l < 1e-6:
                continue
            m = np.cross(self.n, e / l)
            s = (P - a) @ m
            k = (Q - a) @ m
            sgn = 1 if k.max() > -k.min() else -1
            ok &= s * sgn > margin
        return ok


def lightmaps(b, rgb):
    """{face: (styles, offset)}; raw lump"""
    st = np.stack([b.col('faces', 'st%d' % i) for i in range(4)], 1).astype(int)
    ofs = b.col('faces', 'lofs').astype(np.int64)
    return st, ofs, bytes(b.L['lighting'])


# ------------------------------------------------------------------ direct light
def num(e, names, default):
    for n in names:
        for k in ('_' + n, n):
            v = e.get(k)
            if v != '':
                return float(v)
    return default


def color(s):
    if not s:
        return np.array([255.0] * 3)
    c = np.array([float(x) for x in s.split()])
    return c * 255 if (c <= 1).all() else c


def assigned_styles(w, b):
    """takes over the styles given to named lights and switchable shadows; returns what is wrong with them"""
    got = {e.get('netname'): e for e in b.entities() if e.get('netname')}
    by = {}
    for e in w.models + w.points:
        k = e.get('netname')
        if not k:
            continue
        sw = getattr(e, 'shadow', '') == 'switch'
        t = e.get('targetname')
        if not sw and not (t and e.get('classname').startswith('light')):
            continue
        if k not in got:
            return 'entity %s is gone' % k
        v = got[k].get('switchshadstyle' if sw else 'style')
        if not v.isdigit() or not 32 <= int(v) < 64:
            return 'entity %s (targetname %r) got style %r' % (k, t, v)
        v = int(v)
        by.setdefault(v, set()).add(t or k)
        if sw:
            e.swstyle = v
        else:
            e.style = v
    names = [n for x in by.values() for n in x]
    for v, x in by.items():
        if len(x) > 1:
            return 'style %d is shared by %s' % (v, sorted(x))
    if len(names) != len(set(names)):
        return 'one targetname has several styles: %s' % by
    return None


class Solid:
    def __init__(self, b, kind, channel=1, only=None, style=0):
        self.N, self.D = np.array([p[0] for p in b.pl]), np.array([p[1] for p in b.pl])
        self.kind, self.channel, self.only, self.style = kind, channel, only, style


def solids(w):
    """everything that stops light, on whom (only: None all, 0 world, 'key' that model), or moves it to another style"""
    out = []
    for b in w.brushes:
        bt = w.bits(b.cls)
        if b.cls == 'sky':
            out.append(Solid(b, 'sky'))
        elif bt & (S | DS | DW):
            out.append(Solid(b, 'solid'))
    for m in w.models:
        if m.shadow in ('1', 'self', 'world', 'switch', 'channel'):
            out += [Solid(b, 'model', m.channel, {'self': m.key, 'world': 0}.get(m.shadow), m.swstyle) for b in m.wb]
    return out


def chords(N, D, A, B, grow):
    """entry and exit parameters of segments A->B in a grown (or shrunk) brush; t0 > t1 when missed"""
    a = A @ N.T - D - grow
    c = B @ N.T - D - grow
    den = a - c
    with np.errstate(divide='ignore', invalid='ignore'):
        t = a / den
    ent = np.where(a > 0, np.where(c > 0, np.inf, t), 0.0)
    ext = np.where(c > 0, np.where(a > 0, -np.inf, t), 1.0)
    return ent.max(1), ext.min(1)


def blocked(sol, A, B):
    """1 certainly blocked, 0 certainly clear, -1 unsure"""
    yes = np.zeros(len(A), bool)
    maybe = np.zeros(len(A), bool)
    for b in sol:
        t0, t1 = chords(b.N, b.D, A, B, .3)
        maybe |= t0 <= t1
        t0, t1 = chords(b.N, b.D, A, B, -.3)
        yes |= t0 < t1
    return np.where(yes, 1, np.where(maybe, -1, 0))


def sky_hit(sol, A, dirn):
    """1 the first thing on the way is sky, 0 it is not, -1 unsure"""
    B = A + dirn * 20000.0
    first_sky, first_solid = np.full(len(A), np.inf), np.full(len(A), np.inf)
    msky, msolid = np.full(len(A), np.inf), np.full(len(A), np.inf)
    for b in sol:
        t0, t1 = chords(b.N, b.D, A, B, -.3)
        hit = np.where(t0 < t1, t0, np.inf)
        g0, g1 = chords(b.N, b.D, A, B, .3)
        may = np.where(g0 <= g1, g0, np.inf)
        if b.kind == 'sky':
            first_sky, msky = np.minimum(first_sky, hit), np.minimum(msky, may)
        else:
            first_solid, msolid = np.minimum(first_solid, hit), np.minimum(msolid, may)
    yes = first_sky < msolid - 1e-4
    no = first_solid < msky - 1e-4
    return np.where(yes, 1, np.where(no, 0, -1)), first_sky * 20000


class LightEnt:
    def __init__(self, e, world, q2, ents, samples=64):
        self.o = np.array([float(x) for x in e.get('origin').split()])
        self.light = num(e, ['light'], 300.0)
        self.delay = int(num(e, ['delay'], 0))
        self.atten = num(e, ['wait'], 1.0)
        if self.atten <= 0:
            self.atten = 1.0
        self.style = getattr(e, 'style', None) or int(num(e, ['style'], 0))
        self.falloff = num(e, ['falloff'], 0.0)
        g = num(world, ['anglescale', 'anglesense'], .5)
        a = num(e, ['anglescale', 'anglesense'], -1)
        self.ascale = g if a < 0 or a > 1 else a
        self.color = color(e.get('_color') or e.get('color'))
        self.bleed = num(e, ['bleed'], 0) > 0
        self.dist = num(world, ['dist'], 1.0)
        self.spot = None
        if e.get('mangle'):
            y, p = [math.radians(float(x)) for x in e.get('mangle').split()[:2]]
            self.spot = np.array([math.cos(y) * math.cos(p), math.sin(y) * math.cos(p), math.sin(p)])
        t = e.get('target')
        if t:
            for x in ents:
                if x.get('targetname') == t:
                    v = np.array([float(k) for k in x.get('origin').split()]) - self.o
                    self.spot = v / np.linalg.norm(v)
        if self.spot is not None:
            cone = num(e, ['cone'], 0) * 2
            if not cone:
                cone = num(e, ['angle'], 0)
            if not cone:
                cone = 20.0 if q2 else 40.0
            soft = num(e, ['softangle'], 0)
            if soft <= 0 or soft > cone:
                soft = cone
            self.f1, self.f2 = -math.cos(math.radians(cone / 2)), -math.cos(math.radians(soft / 2))
        self.channel = int(num(e, ['light_channel_mask'], 1))
        self.shchannel = int(num(e, ['shadow_channel_mask'], self.channel))
        self.sun = None
        if num(e, ['sun'], 0) and self.light > 0:
            self.sun = [Sun(self.light, self.spot, self.color, self.ascale, self.style)]
        elif num(e, ['sunlight2'], 0) and self.light > 0:
            self.sun = dome(self.light, self.color, self.ascale, True, samples, self.style)
        elif num(e, ['sunlight3'], 0) and self.light > 0:
            self.sun = dome(self.light, self.color, self.ascale, False, samples, self.style)

    def value(self, dist):
        if self.falloff > 0 and self.delay == 0:
            return np.where(self.falloff > dist, self.light * (1 - dist / self.falloff), 0.0)
        if self.delay == 3:
            return np.full(dist.shape, self.light)
        v = self.dist * self.atten * dist
        if self.delay == 1:
            return self.light / (v / 128)
        if self.delay == 2:
            return self.light / (v / 128) ** 2
        if self.delay == 5:
            return self.light / ((v + 128) / 128) ** 2
        if self.light > 0:
            return np.maximum(self.light - v, 0)
        return np.minimum(self.light + v, 0)

    def at(self, P, n):
        """unshadowed light (rgb) at points with a normal; and which are doubtful"""
        d = self.o - P
        dist = np.linalg.norm(d, axis=1)
        u = d / np.maximum(dist, 1e-6)[:, None]
        ang = u @ n
        if self.bleed:
            ang = np.abs(ang)
        doubt = (np.abs(ang) < 1e-3) | (dist < 1)
        a = np.where(ang < 0, 0, 1 - self.ascale + self.ascale * ang)
        s = np.ones(len(P))
        if self.spot is not None:
            f = u @ self.spot
            s = np.where(f > self.f1, 0, s)
            if self.f1 != self.f2:
                s = np.where((f > self.f2) & (f <= self.f1), 1 - (f - self.f2) / (self.f1 - self.f2), s)
            doubt |= np.abs(f - self.f1) < 1e-3
        v = self.value(dist) * a * s
        if self.delay == 0 and self.falloff == 0:
            pass
        return v[:, None] * self.color / 255, doubt, u


class Sun:
    def __init__(self, light, vec, col, ascale, style=0, part=False):
        self.light, self.color, self.ascale, self.style, self.part = light, col, ascale, style, part
        v = np.array(vec, float)
        self.u = -v / np.linalg.norm(v)

    def at(self, n):
        a = max(0.0, float(self.u @ n))
        return self.light * (1 - self.ascale + self.ascale * a) * self.color / 255


def dome(light, col, ascale, upper, samples, style=0):
    """a hemisphere of equal suns: rings of equal steps of elevation, plus the pole"""
    it = max(int(np.rint(math.sqrt((samples - 1) // 4))) + 1, 2)
    el = it - 1
    n = el * 4 * el + 1
    out, ang = [], 0.0
    for i in range(el):
        e = math.radians(90.0 / (el + 1)) * (i + .5)
        for j in range(el * 4):
            out.append(Sun(light / n, (math.cos(ang) * math.cos(e), math.sin(ang) * math.cos(e), -math.sin(e) * (1 if upper else -1)), col, ascale, style, True))
            ang += math.radians(360.0 / (el * 4))
        ang += math.radians(360.0 / (el * 4)) / el
    out.append(Sun(light / n, (0, 0, -1 if upper else 1), col, ascale, style, True))
    return out


def suns(world, samples=64):
    g = num(world, ['anglescale', 'anglesense'], .5)
    out = []

    def vec(*names):
        for s in names:
            if world.get(s):
                y, p = [math.radians(float(x)) for x in world.get(s).split()[:2]]
                return (math.cos(y) * math.cos(p), math.sin(y) * math.cos(p), math.sin(p))
        return (0, 0, -1)
    if num(world, ['sunlight'], 0):
        out.append(Sun(num(world, ['sunlight'], 0), vec('_sunlight_mangle', '_sun_mangle'), color(world.get('_sunlight_color')), g))
    if num(world, ['sun2'], 0):
        out.append(Sun(num(world, ['sun2'], 0), vec('_sun2_mangle'), color(world.get('_sun2_color')), g))
    for k, up in (('sunlight2', True), ('sunlight3', False)):
        if num(world, [k], 0):
            out += dome(num(world, [k], 0), color(world.get('_%s_color' % k)), g, up, samples)
    return out


class Model:
    """direct light of a world: lights, suns, minlight, range, gamma, maxlight"""
    def __init__(self, w, extra=1, samples=64):
        self.w = w
        ents = w.entlist
        L = [LightEnt(e, w.world, w.q2, ents, samples) for e in ents if e.get('classname').startswith('light') and e.get('origin')]
        self.suns = suns(w.world, samples) + [x for l in L if l.sun for x in l.sun]
        self.lights = [l for l in L if not l.sun and l.delay != 4]
        self.local = [l for l in L if not l.sun and l.delay == 4]
        self.sol = solids(w)
        self.all = [(np.array([p[0] for p in b.pl]), np.array([p[1] for p in b.pl])) for b in w.brushes + [x for m in w.models for x in m.wb]]
        self.range = num(w.world, ['range'], 1.0 if w.q2 else .5)
        self.gamma = num(w.world, ['gamma'], 1.0)
        self.maxlight = num(w.world, ['maxlight'], 0) 
        self.minlight = num(w.world, ['light', 'minlight'], 0) * (128 if w.q2 else 1)
        self.rawmin = num(w.world, ['light', 'minlight'], 0)
        self.mincolor = color(w.world.get('_minlight_color') or w.world.get('_mincolor'))
        self.addmin = num(w.world, ['addmin'], 0) > 0
        self.extra = extra
        self.models = {m.key: m for m in w.models if hasattr(m, 'key')}

    def styles(self):
        return sorted({l.style for l in self.lights + self.local + self.suns} | {0} | {b.style for b in self.sol})

    def clear(self, P):
        """not in or near any brush"""
        ok = np.ones(len(P), bool)
        for N, D in self.all:
            ok &= ~((P @ N.T - D) < .5).all(1)
        return ok

    def finish(self, c, maxlight=0):
        c = np.maximum(c, 0)
        maxlight = maxlight or self.maxlight
        if maxlight:
            m = c.max(1)
            mv = maxlight * 2
            c = np.where((m > mv)[:, None], c * (mv / np.maximum(m, 1e-9))[:, None], c)
        c = c * self.range
        if self.gamma != 1:
            c = (c / 255) ** (1 / self.gamma) * 255
        m = c.max(1)
        return np.where((m > 255)[:, None], c * (255 / np.maximum(m, 1e-9))[:, None], c)

    def face(self, lx, key=0):
        """{style: (h, w, 3) wanted}, mask of the luxels that can be judged; key: 0 for the world or the model's key.
        self.hi is the same with everything doubtful counted in"""
        e = self.extra
        st = -.5 + .5 / e + np.arange(lx.w * e) / e
        tt = -.5 + .5 / e + np.arange(lx.h * e) / e
        Sx, T = np.meshgrid(st, tt)
        P = lx.world(Sx.ravel(), T.ravel())
        ok = lx.inside(P, .05) & self.clear(P)
        out = {s: np.zeros((len(P), 3)) for s in self.styles()}
        hi = {s: np.zeros((len(P), 3)) for s in out}
        neg = {s: np.zeros((len(P), 3)) for s in out}
        I = np.nonzero(ok)[0]
        if not len(I):
            return None, None
        n = lx.n
        m = self.models.get(key)
        channel = m.channel if m is not None else 1
        ign = m is not None and num(m, ['lightignore'], 0) > 0

        def masks(mask):
            use = [b for b in self.sol if (b.channel & mask) and (b.only is None or b.only == key)]
            return [b for b in use if not b.style], [b for b in use if b.style]

        def split(dyn, l, J, c, O, far=None):
            """adds light to the style of the light, or to that of the switchable shadow in its way"""
            if l.style or not dyn:
                O[l.style][J] += c
                return
            st = np.zeros(len(J), int)
            for b in dyn:
                t = blocked([b], P[J], np.broadcast_to(l.o, (len(J), 3)) if far is None else P[J] + l.u * far[:, None])
                # between several switchable models of different styles nothing decides
                ok[J[(t < 0) | ((t == 1) & (st != 0) & (st != b.style))]] = False
                st[t == 1] = b.style
            for x in set(st.tolist()):
                O[x][J[st == x]] += c[st == x]

        for l in self.lights if not ign else []:
            if not (l.channel & channel):
                continue
            sol, dyn = masks(l.shchannel)
            c, doubt, u = l.at(P[I], n)
            use = (np.abs(c).max(1) > 0) | doubt
            J = I[use]
            if not len(J):
                continue
            bl = blocked(sol, P[J], np.broadcast_to(l.o, (len(J), 3)))
            bad = (bl < 0) | (doubt[use] & (bl != 1))
            ok[J[bad]] = False
            split(dyn, l, J[bl == 0], c[use][bl == 0], out if l.light > 0 else neg)
        for s in out:
            hi[s][:] = out[s]
        sol, dyn = masks(1)
        for s in self.suns if channel & 1 and not ign else []:
            c = s.at(n)
            if float(s.u @ n) < .02:
                if float(s.u @ n) > -.02:
                    if not s.part:
                        return None, None
                    hi[s.style][I] += c
                continue
            h, far = sky_hit(sol, P[I], s.u)
            if not s.part:
                ok[I[h < 0]] = False
            J = I[h == 1]
            split(dyn, s, J, np.broadcast_to(c, (len(J), 3)), out, far[h == 1])
            split(dyn, s, J, np.broadcast_to(c, (len(J), 3)), hi, far[h == 1])
            if s.part:
                for x in {s.style} | {b.style for b in dyn if not s.style}:
                    hi[x][I[h == -1]] += c
        for O in (out, hi):
            for l in self.local if not ign else []:
                bl = blocked(sol, P[I], np.broadcast_to(l.o, (len(I), 3)))
                ok[I[bl < 0]] = False
                J = I[bl == 0]
                c = l.color * l.light / 255
                if self.addmin:
                    O[l.style][J] += c
                else:
                    # luxels that are brighter already are left alone
                    mean = O[l.style][J].mean(1)
                    ok[J[np.abs(mean - l.light) < .05 + .001 * l.light]] = False
                    J = J[mean < l.light]
                    O[l.style][J] = np.maximum(O[l.style][J], c)
            ml, col = self.minlight, self.mincolor
            if m is not None:
                q = 128 if self.w.q2 else 1
                if num(m, ['minlight'], None) is not None:
                    ml = num(m, ['minlight'], 0) * q
                c = m.get('_minlight_color') or m.get('_mincolor')
                col = color(c) if c else self.mincolor
                if ml <= self.rawmin:
                    ml, col = self.rawmin, self.mincolor
            if ml:
                c = col * ml / 255
                O[0] = O[0] + c if self.addmin else np.maximum(O[0], c)
        mx = num(m, ['maxlight'], 0) * (128 if self.w.q2 else 1) if m is not None else 0
        res, self.hi = {}, {}
        for s in out:
            a, b = self.finish(out[s] + neg[s], mx), self.finish(hi[s] + neg[s], mx)
            d = (hi[s] - out[s]).max(1) > 1e-6
            # scaling bright colors down is not monotonous in each channel
            ok[d & (b.max(1) > 250 * min(1, self.range))] = False
            if mx or self.maxlight:
                ok[d] = False
            res[s], self.hi[s] = [x.reshape(lx.h, e, lx.w, e, 3).mean((1, 3)) for x in (a, b)]
        okk = ok.reshape(lx.h, e, lx.w, e).all((1, 3))
        return res, okk


# ------------------------------------------------------------------ where the lightmaps are
class DLuxels(Luxels):
    """lightmap laid out by a world to luxel matrix (DECOUPLED_LM)"""
    def __init__(self, b, f, w, h, M):
        Luxels.__init__(self, b, f)
        self.w, self.h, self.lo, self.scale, self.exact = w, h, np.zeros(2), 1.0, True
        n, d = b.face_plane(f)
        M = np.array(M, float).reshape(2, 4)
        A = np.array([M[0, :3], M[1, :3], n])
        self.det = np.linalg.det(A)
        if abs(self.det) > 1e-9:
            self.inv = np.linalg.inv(A)
            self.off = np.array([M[0, 3], M[1, 3], -d])
        self.uv = self.poly @ M[:, :3].T + M[:, 3]

    def world(self, s, t):
        x = np.stack([s, t, np.zeros_like(s)], -1)
        return (x - self.off) @ self.inv.T + self.n


class Slot:
    """lightmaps of a face: offset in samples (of rgb or grey), styles, layout"""
    def __init__(self, f, kind, ofs, styles, lx):
        self.f, self.kind, self.ofs, self.styles, self.lx = f, kind, ofs, styles, lx
        self.n = lx.w * lx.h

    def maps(self, data):
        """{style: (h, w, channels)} of an array with one row per sample"""
        return {s: data[self.ofs + i * self.n:self.ofs + (i + 1) * self.n].reshape(self.lx.h, self.lx.w, -1) for i, s in enumerate(self.styles)}


def style_list(row, none=255):
    """styles in use, or None when there are any after the first unused one, or doubles"""
    row = [int(x) for x in row]
    n = row.index(none) if none in row else len(row)
    if any(x != none for x in row[n:]) or len(set(row[:n])) != n:
        return None
    return row[:n]


def slots(b, fmt, scale=16.0):
    """all lightmaps the file declares: {(face, kind): Slot}; kind 'v' plain, 's' by LMSHIFT/LMOFFSET/LMSTYLE, 'd' decoupled. And a list of complaints"""
    x = b.raw['bspx']
    ch = 3 if fmt in RGB else 1
    st = np.stack([b.col('faces', 'st%d' % i) for i in range(4)], 1).astype(int)
    ofs = b.col('faces', 'lo').astype(np.int64)
    nf = len(ofs)
    out, bad = {}, []

    def put(f, kind, o, styles, lx):
        if o < 0:
            return
        if o % ch:
            bad.append(('offset', 'face %d: %s lightmap offset %d is not that of a luxel' % (f, kind, o)))
            return
        out[f, kind] = Slot(f, kind, o // ch, styles, lx)
    sup = {}
    for name, size in (('LMSHIFT', nf), ('LMOFFSET', nf * 4), ('DECOUPLED_LM', nf * 40)):
        if name in x and len(x[name]) != size:
            bad.append(('size', '%s has %d bytes for %d faces' % (name, len(x[name]), nf)))
            return out, bad
    for name, ty in (('LMSTYLE', np.uint8), ('LMSTYLE16', '<u2')):
        if name in x:
            v = np.frombuffer(x[name], ty)
            if len(v) % nf:
                bad.append(('size', '%s has %d entries for %d faces' % (name, len(v), nf)))
                return out, bad
            sup[name] = v.reshape(nf, -1).astype(int)
    for f in range(nf):
        sl = style_list(st[f])
        if sl is None:
            bad.append(('style', 'face %d has styles %s' % (f, st[f].tolist())))
            continue
        if (ofs[f] >= 0) != bool(sl) and not ('LMOFFSET' in x or 'DECOUPLED_LM' in x):
            bad.append(('style', 'face %d has lightmap offset %d and styles %s' % (f, ofs[f], st[f].tolist())))
        put(f, 'v', ofs[f], sl, Luxels(b, f, scale))
        if 'LMSHIFT' in x or 'LMOFFSET' in x or sup:
            o = struct.unpack_from('<i', x['LMOFFSET'], 4 * f)[0] if 'LMOFFSET' in x else ofs[f]
            s2 = sl
            for name, v in sup.items():
                s2 = style_list(v[f], 255 if name == 'LMSTYLE' else 65535)
            if s2 is None:
                bad.append(('style', 'face %d has extended styles %s' % (f, v[f].tolist())))
                continue
            put(f, 's', o, s2, Luxels(b, f, 2.0 ** x['LMSHIFT'][f] if 'LMSHIFT' in x else scale))
        if 'DECOUPLED_LM' in x:
            w, h, o = struct.unpack_from('<HHi', x['DECOUPLED_LM'], 40 * f)
            if o >= 0:
                put(f, 'd', o, sl, DLuxels(b, f, w, h, struct.unpack_from('<8f', x['DECOUPLED_LM'], 40 * f + 8)))
    return out, bad


def tiling(sl, total):
    """lightmaps lie back to back (rounded up to four samples) and fill the lump; sl: Slots; total: samples in the lump"""
    pos, loose = 0, False
    for s in sorted(sl, key=lambda s: s.ofs):
        size = (len(s.styles) * s.n + 3) // 4 * 4
        what = 'face %d (%s lightmap, %d styles of %dx%d at %d)' % (s.f, {'v': 'plain', 's': 'scaled', 'd': 'decoupled'}[s.kind], len(s.styles), s.lx.w, s.lx.h, s.ofs)
        if s.ofs < pos:
            return '%s starts before the one before ends (%d)' % (what, pos)
        if s.ofs > pos and not loose:
            return '%s leaves %d samples before it that no face uses' % (what, s.ofs - pos)
        # where rounding may have decided the size, the next one tells
        loose = not s.lx.exact
        pos = s.ofs + (1 if loose else size)
    if pos != total and not loose or pos > total:
        return 'lightmaps end at %d of %d samples' % (pos, total)
    return None


def compare(slot, want, hi, ok, have, grey, extra=1):
    """first luxel whose value is out of the wanted range: (style, x, y, got, want, number) or None"""
    for s, v in want.items():
        if s not in have:
            continue
        h = hi[s]
        if grey:
            v, h = v.max(2, keepdims=True), h.max(2, keepdims=True)
        g = have[s].astype(float)
        tol = 1.05 + .006 * h
        bad = ((g < np.floor(v) - tol) | (g > h + tol)).any(2) & ok
        if bad.any():
            y, x = [int(i[0]) for i in np.nonzero(bad)]
            return s, x, y, g[y, x].tolist(), v[y, x].round(2).tolist(), int(bad.sum())
    return None
