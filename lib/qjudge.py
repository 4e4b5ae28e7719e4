"""Judges for what qbsp wrote, against the exact world models of qworld."""
import os, re
import numpy as np
import vp, bspfmt
from qworld import *

NEUTRAL = [['-forcegoodtree'], ['-maxnodesize', '256'], ['-maxnodesize', '128'], ['-maxnodesize', '0'], ['-midsplitsurffraction', '0.3'], ['-midsplitbrushfraction', '0.2'], ['-chop'],
           ['-chop', '-chopfragment'], ['-nomerge'], ['-nosubdivide'], ['-subdivide', '64'], ['-noedgereuse'], ['-splitsky'], ['-splitturb', '0'], ['-tjunc', 'rotate'],
           ['-tjunc', 'none'], ['-tjunc', 'retopologize'], ['-oldaxis', '0'], ['-wrbrushes'], ['-noskip'], ['-forceprt1'], ['-notex'], ['-maxedges', '16'], ['-nomergeacrossliquids']]


def options(r, n=2):
    out, used = [], set()
    for _ in range(r.randint(0, n)):
        o = r.choice(NEUTRAL)
        if o[0] not in used:
            used.add(o[0])
            out += o
    return out


def cell_points(cs, r, per=2, margin=.13):
    """center of each cell and `per`-1 other points strictly inside"""
    rs = np.random.RandomState(r.getrandbits(31))
    shape = [len(c) - 1 for c in cs]
    out = []
    for k in range(per):
        ax = []
        for c in cs:
            if k == 0:
                ax.append(np.tile(.5, shape))
            else:
                ax.append(rs.uniform(0, 1, shape))
        P = []
        for i in range(3):
            lo = cs[i][:-1].reshape([-1 if j == i else 1 for j in range(3)])
            hi = cs[i][1:].reshape([-1 if j == i else 1 for j in range(3)])
            m = np.minimum(margin, (hi - lo) / 4)
            P.append((lo + m) + ax[i] * (hi - lo - 2 * m))
        out.append(np.stack(P, -1).reshape(-1, 3))
    return out


class Fill:
    """reachability of an axial world as the documentation of the fill describes it"""
    def __init__(self, w, cs, bits, nofill=False, filldetail=True, can_fill=True, hull=0):
        seal = SEAL
        self.occ = w.occupied(cs, bits, seal)
        pas = (bits & seal) == 0
        self.r1 = flood(pas, self.occ)
        edge = np.zeros(bits.shape, bool)
        for a in range(3):
            sl = [slice(None)] * 3
            for e in (0, -1):
                sl[a] = e
                edge[tuple(sl)] = True
        self.leak = bool((self.r1 & edge).any())
        self.filled = bool(self.occ) and not self.leak and not nofill and can_fill
        self.r2 = flood(pas & ((bits & DS) == 0), self.occ) if filldetail else self.r1


def expected_cells(w, bits, F):
    """(native contents wanted, mask of cells where solid or sky is right)"""
    want = w.native(bits)
    either = np.zeros(bits.shape, bool)
    if F.filled:
        want = np.where(F.r1 & ~F.r2, w.native(np.array(S)), want)
        either = ~F.r1
    return want, either


def bad_cells(w, got, want, either):
    ok = got == want
    solid = 1 if w.q2 else -2
    fill = (got == solid) if w.q2 else ((got == -2) | (got == -6))
    return ~np.where(either, fill, ok)


def brush_solids(w, bits):
    return [b for b in w.brushes if w.bits(b.cls) & bits]


def seg_blocked(a, P, brushes, grow):
    """True where segment a->P[i] meets one of the brushes grown by `grow`"""
    blocked = np.zeros(len(P), bool)
    D = P - a
    for b in brushes:
        t0, t1 = np.zeros(len(P)), np.ones(len(P))
        for n, d in b.pl:
            da = float(n @ a) - d - grow
            dd = D @ n
            with np.errstate(divide='ignore', invalid='ignore'):
                t = -da / dd
            enter = dd < 0
            leave = dd > 0
            t0 = np.where(enter, np.maximum(t0, t), t0)
            t1 = np.where(leave, np.minimum(t1, t), t1)
            if da > 0:
                t1 = np.where(dd == 0, -1, t1)
        blocked |= t0 <= t1
    return blocked


def ray_reach(r, starts, P, brushes, grow=4.0, rounds=3, fan=12):
    """lower bound of what can be reached: hops along straight segments with clearance"""
    reach = np.zeros(len(P), bool)
    front = [np.array(s, float) for s in starts]
    for _ in range(rounds):
        new = np.zeros(len(P), bool)
        for a in front:
            todo = ~(reach | new)
            if not todo.any():
                break
            idx = np.nonzero(todo)[0]
            new[idx[~seg_blocked(a, P[idx], brushes, grow)]] = True
        if not new.any():
            break
        reach |= new
        c = list(np.nonzero(new)[0])
        r.shuffle(c)
        front = [P[i] for i in c[:fan]]
    return reach


def describe(w, args, fmt):
    return '%s %s kind=%s brushes=%s' % (fmt, ' '.join(args), w.kind, {k: sum(b.cls == k for b in w.brushes) for k in {b.cls for b in w.brushes}})


def tool_failed(ctx, q, fmt, args, key='exit'):
    """judge the run itself; True when there is nothing further to look at"""
    files = [q.base + e for e in ('.map', '.bsp', '.prt', '.pts')]
    if q.timed_out or q.crashed:
        ctx.crash(q, 'qbsp', files)
        return True
    if q.rc:
        ctx.violation(key, 'qbsp %s %s failed (%d) on a valid map: %s' % (fmt, args, q.rc, q.out[-400:]), files)
        return True
    return False


def cleanup(q):
    d, n = os.path.split(q.base)
    for f in os.listdir(d):
        if f.startswith(n + '.') or f.startswith(n + '-'):
            os.remove(os.path.join(d, f))
