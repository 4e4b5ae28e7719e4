"""Independent model of .map text: sides, brushes, entities; writer, reader and convex geometry helpers."""
import math, re
import numpy as np


class Side:
    __slots__ = ('p', 'tex', 'fmt', 'sh', 'rot', 'sc', 'ax', 'info')

    def __init__(self, p, tex, fmt='q', sh=(0, 0), rot=0, sc=(1, 1), ax=None, info=None):
        self.p, self.tex, self.fmt, self.sh, self.rot, self.sc, self.ax, self.info = p, tex, fmt, sh, rot, sc, ax, info

    def key(self):
        f = lambda x: None if x is None else [float(v) for v in np.asarray(x, float).ravel()]
        return [f(self.p), self.tex, self.fmt, f(self.sh), float(self.rot), f(self.sc), f(self.ax), None if self.info is None else list(self.info)]

    def text(self):
        n = lambda v: ('%d' % v) if float(v).is_integer() and abs(v) < 1e15 else '%.17g' % v
        s = ' '.join('( %s %s %s )' % tuple(n(c) for c in q) for q in self.p) + ' ' + self.tex + ' '
        if self.fmt == 'v':
            s += ' '.join('[ %s %s %s %s ]' % (n(a[0]), n(a[1]), n(a[2]), n(self.sh[i])) for i, a in enumerate(self.ax))
            s += ' %s %s %s' % (n(self.rot), n(self.sc[0]), n(self.sc[1]))
        else:
            s += ' '.join(n(v) for v in (self.sh[0], self.sh[1], self.rot, self.sc[0], self.sc[1]))
        if self.info is not None:
            s += ' %d %d %d' % tuple(self.info)
        if self.fmt in ('e1', 'e2'):
            s += ' //TX' + self.fmt[1]
        return s

    def plane(self):
        p = [np.array(x, float) for x in self.p]
        n = np.cross(p[0] - p[1], p[2] - p[1])
        n /= np.linalg.norm(n)
        return n, float(n @ p[1])


class Ent:
    def __init__(self, kv=(), brushes=()):
        self.kv, self.brushes = list(kv), [list(b) for b in brushes]
        self.line = None

    def get(self, k, d=''):
        for a, b in self.kv:
            if a == k:
                return b
        return d

    def text(self):
        s = '{\n' + ''.join('"%s" "%s"\n' % kv for kv in self.kv)
        for b in self.brushes:
            s += '{\n' + ''.join(x.text() + '\n' for x in b) + '}\n'
        return s + '}\n'

    def key(self):
        return [[list(x) for x in self.kv], [[s.key() for s in b] for b in self.brushes]]


def write(ents):
    return ''.join(e.text() for e in ents)


_tok = re.compile(rb'//TX([12])[^\n]*|//[^\n]*|"((?:[^"\\]|\\.)*)"|([^\s]+)', re.S)


def parse(data):
    """independent reader; every side on its own line as all the tools write it"""
    ents, cur, brush = [], None, None
    for raw in data.decode('latin-1').split('\n'):
        line = raw.strip()
        if not line:
            continue
        tx = re.search(r'//TX([12])', line)
        if not line.startswith('"'):
            line = line.split('//')[0].strip()
        if not line:
            continue
        if line == '{':
            if cur is None:
                cur = Ent()
            else:
                assert brush is None, 'nested'
                brush = []
        elif line == '}':
            if brush is not None:
                cur.brushes.append(brush)
                brush = None
            else:
                ents.append(cur)
                cur = None
        elif line.startswith('"'):
            m = re.match(r'"((?:[^"\\]|\\.)*)"\s+"(.*)"$', line, re.S)
            assert m, line
            cur.kv.append((m.group(1), m.group(2)))
        else:
            t = line.split()
            assert brush is not None, line
            p = []
            for i in range(3):
                assert t[5 * i] == '(' and t[5 * i + 4] == ')', line
                p.append(tuple(float(x) for x in t[5 * i + 1:5 * i + 4]))
            s = Side(p, t[15])
            t = t[16:]
            if t[0] == '[':
                assert t[5] == ']' and t[6] == '[' and t[11] == ']', line
                s.fmt = 'v'
                s.ax = [[float(x) for x in t[1:4]], [float(x) for x in t[7:10]]]
                s.sh = (float(t[4]), float(t[10]))
                t = t[12:]
            else:
                s.sh = (float(t[0]), float(t[1]))
                t = t[2:]
                if tx:
                    s.fmt = 'e' + tx.group(1)
            s.rot, s.sc = float(t[0]), (float(t[1]), float(t[2]))
            t = t[3:]
            if t:
                assert len(t) == 3, line
                s.info = [int(x) for x in t]
            brush.append(s)
    assert cur is None and brush is None, 'unterminated'
    return ents


# ---------------------------------------------------------------- convex geometry
def poly_from_plane(n, d, ext=65536.0):
    a = np.eye(3)[int(np.argmin(np.abs(n)))]
    u = np.cross(n, a)
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    c = n * d
    return [c + u * ext + v * ext, c - u * ext + v * ext, c - u * ext - v * ext, c + u * ext - v * ext]


def poly_clip(poly, n, d, eps=1e-9):
    """keep the part with n.x <= d"""
    out = []
    m = len(poly)
    if not m:
        return out
    dist = [float(n @ p) - d for p in poly]
    for i in range(m):
        j = (i + 1) % m
        if dist[i] <= eps:
            out.append(poly[i])
        if (dist[i] > eps and dist[j] < -eps) or (dist[i] < -eps and dist[j] > eps):
            t = dist[i] / (dist[i] - dist[j])
            out.append(poly[i] + (poly[j] - poly[i]) * t)
    return out


def brush_polys(planes, ext=65536.0):
    """polygon of every plane of the convex brush {x: n.x <= d}"""
    res = []
    for i, (n, d) in enumerate(planes):
        p = poly_from_plane(n, d, ext)
        for j, (m, e) in enumerate(planes):
            if j != i and p:
                p = poly_clip(p, m, e)
        res.append(p)
    return res


def poly_area(p):
    if len(p) < 3:
        return 0.0
    s = np.zeros(3)
    for i in range(1, len(p) - 1):
        s += np.cross(p[i] - p[0], p[i + 1] - p[0])
    return float(np.linalg.norm(s)) / 2
