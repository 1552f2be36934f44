"""C10 sequences of edits against a model of the relabelling; C30 rejected requests."""
import os
import numpy as np
from hypcompat import st
import gen, ref
from core import register, need, close, same, raises, Violation
from igakit.io import PetIGA, VTK
from sut import (NURBS, transform, cad, valid, snap, unchanged, evaluate, structure)

LD = np.longdouble
OPS = ['insert', 'insert', 'refine', 'removered', 'remove', 'elevate', 'clamp', 'unclamp', 'reverse',
       'transpose', 'swap', 'remap', 'slice', 'copy', 'clone', 'move', 'scale', 'rotate', 'matrix']

@st.composite
def cases10(draw):
    c = draw(gen.nurbs(mags=False, pmax=None, rat=draw(st.sampled_from([0, 1, 1]))))
    n = draw(st.integers(1, 10))
    I = st.integers(0, 64)
    c['ops'] = [[draw(st.sampled_from(OPS)), draw(I), draw(I), draw(I), draw(I)] for _ in range(n)]
    return c

class Model(object):
    """Original object, per axis the affine map to its parameters, the affine map of space."""
    def __init__(self, R):
        self.R = R; d = R.dim
        self.axis = list(range(d))           # current axis -> original axis
        self.A = [(LD(1), LD(0))] * d        # original parameter = s*t + o, per current axis
        self.dom = [(float(R.dom(i)[0]), float(R.dom(i)[1])) for i in range(d)]
        self.deg = list(R.p)
        self.M = np.eye(4, dtype=LD)
        self.red = []                        # [current axis, knot, copies] known to be redundant
    def values(self, params):
        d = self.R.dim
        src = [None] * d
        for i in range(d):
            s, o = self.A[i]
            a, b = self.R.dom(self.axis[i])
            src[self.axis[i]] = [min(max(s * LD(t) + o, a), b) for t in params[i]]
        V = np.moveaxis(self.R(*src), self.axis, range(d))
        X = V[..., :3] @ self.M[:3, :3].T + self.M[:3, 3]
        return np.concatenate([X, V[..., 3:]], axis=-1)

def inner_of(p, U):
    a, b = U[p], U[len(U) - p - 1]
    return sorted(set(u for u in U if a < u < b))

def pick(p, U, k):
    """A parameter inside the domain: an interior knot, or a point well away from all of them."""
    a, b = U[p], U[len(U) - p - 1]
    inn = inner_of(p, U)
    if k % 3 == 0 and inn: return inn[k // 3 % len(inn)]
    if k % 11 == 10: return a if k // 11 % 2 else b     # (no room if clamped)
    x = a + (b - a) * (1 + k % 31) / 33.0
    near = min(U, key=lambda u: abs(u - x))
    if abs(near - x) < (b - a) / 60: return near if a < near < b else None
    return x

def count(U, x): return sum(1 for u in U if u == x)

def probe(nrb):
    """Parameters away from the knots (which may have moved by a rounding error), and the ends."""
    d = nrb.dim; out = []
    for p, U in zip(nrb.degree, nrb.knots):
        U = [float(x) for x in U]; a, b = U[p], U[len(U) - p - 1]
        br = sorted(set(U[p:len(U) - p]))
        xs = [a] + [x + (y - x) * f for x, y in zip(br, br[1:]) if y - x > 1e-9 * (b - a)
                    for f in ((0.13, 0.55, 0.86) if d == 1 else (0.43,))] + [b]
        cap = (None, 30, 9, 5)[d]
        if cap and len(xs) > cap: xs = [xs[i] for i in np.unique(np.linspace(0, len(xs) - 1, cap).round().astype(int))]
        out.append(xs)
    return out

def apply10(nrb, m, op, rec):
    """One step; returns the object to continue with, or None if the step does not apply."""
    name, i, j, k, l = op
    d = nrb.dim; ax = i % d
    sax = ax - d if l % 4 == 0 else ax
    p = nrb.degree[ax]; U = [float(x) for x in nrb.knots[ax]]
    a, b = U[p], U[len(U) - p - 1]
    if name == 'insert' or name == 'refine':
        if len(U) > (60, 40, 16, 11)[d]: return None
        xs = [pick(p, U, j)] if name == 'insert' else [pick(p, U, j), pick(p, U, k), pick(p, U, j + 7)]
        xs = [x for x in xs if x is not None]
        req = []
        for q, x in enumerate(xs):
            room = p - count(U, x) - count(req, x)
            near = [y for y in req if y != x and abs(y - x) < (b - a) / 60]
            if near: continue
            n = 1 + (k + q) % 3
            req += [x] * max(0, min(n, room))
        if not req: return None
        if name == 'insert': nrb.insert(sax, req[0], len(req))
        else: nrb.refine(sax, req[::-1])
        for x in sorted(set(req)):
            if x in (a, b): rec.cls('inserted at an unclamped end'); continue
            for r in m.red:
                if r[0] == ax and r[1] == x: r[2] += count(req, x); break
            else: m.red.append([ax, x, count(req, x)])
        want = sorted(U + req)
        same(nrb.knots[ax], want, '%s: knots' % name)
    elif name == 'removered':
        if not m.red: return None
        r = m.red.pop(j % len(m.red))
        ax, x, n = r; U = [float(t) for t in nrb.knots[ax]]
        need(count(U, x) >= n, 'the inserted knot %r is gone: %r', x, U)
        p = nrb.degree[ax]
        br = sorted(set(U)); gaps = np.diff(br)
        if gaps.max() > 12 * gaps.min() or len(U) > 26: return None
        sc = 1 + float(np.abs(nrb.points).max())
        nrb.remove(ax, x, n, 1e-6 * sc)
        gone = len(U) - len(nrb.knots[ax])
        need(gone == n, 'only %d of %d redundant copies of the knot %r removed', gone, n, x)
        for _ in range(n): U.remove(x)
        same(nrb.knots[ax], U, 'remove: knots')
        rec.cls('removed')
    elif name == 'remove':
        inn = inner_of(p, U)
        if not inn: return None
        x = inn[j % len(inn)]
        W = nrb.weights
        dev = 1e-10 * (1 + float(np.abs(nrb.points).max()))
        nrb.remove(sax, x, None if k % 2 else 1, dev)
        V = nrb.knots[ax].tolist(); gone = len(U) - len(V)
        for _ in range(gone): U.remove(x)
        same(V, U, 'remove: knots')
        for r in m.red:
            if r[0] == ax and r[1] == x: r[2] -= gone
        m.red = [r for r in m.red if r[2] > 0]
    elif name == 'elevate':
        t = 1 + k % 2
        if p + t > (6, 6, 5, 4)[d] or len(U) > (60, 30, 14, 9)[d]: return None
        nrb.elevate(sax, t); m.deg[ax] += t
        m.red = [r for r in m.red if r[0] != ax]
    elif name in ('clamp', 'unclamp'):
        side = (None, 0, 1)[k % 3]
        if name == 'clamp': nrb.clamp(sax, side)
        else: nrb.unclamp(sax, side, j % p)
        same(inner_of(p, U), inner_of(p, nrb.knots[ax].tolist()), name + ': interior knots')
    elif name == 'reverse':
        axes = [[ax], [], [ax, (ax + 1) % d]][k % 3]
        nrb.reverse(*axes)
        for q in (axes or range(d)):
            s, o = m.A[q]; lo, hi = m.dom[q]
            m.A[q] = (-s, o + s * (LD(lo) + LD(hi)))
        for q in (axes or range(d)):
            for r in m.red:
                if r[0] == q: r[1] = m.dom[q][0] + (m.dom[q][1] - r[1])
        for r in m.red: r[1] = nearest(nrb.knots[r[0]], r[1])
    elif name in ('transpose', 'swap'):
        if d == 1: return None
        if name == 'swap':
            perm = list(range(d)); q = (ax + 1 + k % (d - 1)) % d
            perm[ax], perm[q] = perm[q], perm[ax]
            nrb.swap(sax, q)
        else:
            perm = list(np.roll(np.arange(d), j % d))
            if k % 2: perm = perm[::-1]
            perm = [int(t) for t in perm]
            nrb.transpose(perm)
        m.axis = [m.axis[t] for t in perm]; m.A = [m.A[t] for t in perm]
        m.dom = [m.dom[t] for t in perm]; m.deg = [m.deg[t] for t in perm]
        for r in m.red: r[0] = perm.index(r[0])
    elif name == 'remap':
        lo = [0.0, None, -1.0, 2.0, 0.1][j % 5]; L = [1.0, 2.0, 0.7, None, 10.0][k % 5]
        if lo is None and L is None: return None
        l0 = a if lo is None else lo
        hi = b if L is None else l0 + L
        if not (0.05 < hi - l0 < 60): return None
        if abs(l0) + abs(hi) > 1e3 * (hi - l0): return None     # rounding the knots moves points
        nrb.remap(sax, lo, None if L is None else hi)
        s, o = m.A[ax]
        t = (LD(b) - LD(a)) / (LD(hi) - LD(l0))
        m.A[ax] = (s * t, o + s * (LD(a) - t * LD(l0)))
        m.dom[ax] = (l0, hi)
        for r in m.red:
            if r[0] == ax: r[1] = nearest(nrb.knots[ax], l0 + (r[1] - a) * (hi - l0) / (b - a))
    elif name == 'slice':
        x, y = pick(p, U, j), pick(p, U, k)
        x = a if x is None or j % 4 == 0 else x; y = b if y is None or k % 4 == 0 else y
        if x > y: x, y = y, x
        lo, hi = [float(t) for t in m.R.dom(m.axis[ax])]
        if not y - x > (b - a) / 4 or (y - x) * abs(float(m.A[ax][0])) < (hi - lo) / 6: return None
        src = snap(nrb); old = nrb
        nrb = nrb.slice(sax, x, y)
        unchanged(old, src, 'slice changed its source')
        m.dom[ax] = (x, y)
        m.red = [r for r in m.red if r[0] != ax]
    elif name in ('copy', 'clone'):
        nrb = getattr(nrb, name)()
    else:
        M = np.eye(4, dtype=LD)
        if name == 'move':
            t = [(k - 32) / 8.0, (j - 32) / 8.0, (l - 32) / 8.0]
            nrb.translate(t); M[:3, 3] = t
        elif name == 'scale':
            if k % 2:
                f = [0.5, 2.0, 1.25][j % 3]; nrb.scale(f); M[:3, :3] *= f
            else:
                f = [0.5, 2.0, -1.0, 1.5][j % 4]; nrb.scale(f, i % 3); M[i % 3, i % 3] = f
        elif name == 'rotate':
            th = (j - 32) / 10.0; q = k % 3
            nrb.rotate(th, q)
            e, f = [(1, 2), (2, 0), (0, 1)][q]
            cs, sn = np.cos(LD(th)), np.sin(LD(th))
            M[e, e] = M[f, f] = cs; M[e, f] = -sn; M[f, e] = sn
        else:
            B = np.eye(4); B[:3, :3] += (gen.unit(i * 65 + j, (3, 3)) - 0.5) * 0.6; B[:3, 3] = gen.unit(k, (3,))
            nrb.transform(B if l % 2 else transform(B)); M = B.astype(LD)
        m.M = M @ m.M
    return nrb

def nearest(U, x): return float(min(U, key=lambda u: abs(u - x)))

def slopes(nrb, params, msg, rec):
    """Gradients and Hessians of the object as it is now."""
    X = [np.array([x[len(x) // 2]]) for x in params]
    R = ref.of(nrb)
    for order, f in ((1, nrb.gradient), (2, nrb.hessian)):
        for F, V in [(None, R.fields() if R.nf else R.points())] + ([(nrb.points, R.points())] if R.nf else []):
            w, b = R.derivs(order, X, V)
            close(f(F, *X), w, 1e-9 * b + 1e-12 * np.abs(b).max() + 1e-300, '%s: derivatives of order %d' % (msg, order), rec, 'derivatives')

def check10(c, rec):
    R = gen.ref_of(c); d = R.dim
    nrb = gen.make(c, NURBS); m = Model(R)
    keep = []; done = []
    hull = hull0 = float(np.abs(np.asarray(nrb.array)).max()); far = False
    wmin, w0 = float(nrb.weights.min()), float(nrb.weights.max())
    budget = hull * 1e-13
    for op in c['ops']:
        src = (nrb, snap(nrb)) if op[0] in ('copy', 'slice', 'clone') else None
        msg = 'after %s' % ', '.join(done + [op[0]])
        new = apply10(nrb, m, op, rec)
        if new is None: continue
        done.append(op[0])
        if src: need(new is not nrb, '%s: the result is the object itself', msg); keep.append(src + (list(done),))
        nrb = new
        rec.cls(op[0])
        A = valid(nrb, msg, d, R.nf)
        need(tuple(nrb.degree) == tuple(m.deg), '%s: degree %r instead of %r', msg, tuple(nrb.degree), tuple(m.deg))
        for i in range(d):
            p, U = nrb.degree[i], nrb.knots[i]
            need((U[p], U[-p - 1]) == m.dom[i], '%s: domain of axis %d is [%r,%r] instead of %r', msg, i, U[p], U[-p - 1], m.dom[i])
        params = probe(nrb)
        want = m.values(params)
        # what rounding can do: grows with the largest control value seen on the way
        # (unclamping extrapolates) and with the spread of the knot intervals
        cond = 1.0
        for i in range(d):
            br = np.unique(nrb.knots[i]); g = np.diff(br); g = g[g > 1e-9 * (br[-1] - br[0])]
            cond *= (g.max() / g.min()) ** (min(nrb.degree[i], 3) if op[0] in ('elevate', 'unclamp', 'removered', 'remove') else 1)
        budget = budget * (4 if op[0] in ('elevate', 'unclamp', 'removered', 'remove') else 1.5)
        # only unclamping takes control points out of the hull of the earlier ones
        if op[0] == 'unclamp': hull = max(hull, float(np.abs(A).max())); far = True
        else: hull = max(hull, float(np.abs(np.asarray(m.M[:3, :3], dtype='d')).sum(1).max() * hull0 + np.abs(np.asarray(m.M[:3, 3], dtype='d')).max() * w0)) if not far else max(hull, float(np.abs(A).max()))
        budget += 1e-12 * cond * (1 + min(float(np.abs(A).max()), 2 * hull))
        wlo, whi = float(A[..., 3].min()), float(A[..., 3].max())
        if not far: need(wlo > 0.999 * wmin and whi < 1.001 * w0, '%s: weights in [%r,%r], were in [%r,%r]', msg, wlo, whi, wmin, w0)
        if wlo <= 0: return               # unclamping extrapolated a weight through zero
        w = whi / wlo
        tol = max(budget * max(1.0, w), 1e-9 * float(np.abs(want).max() + 1))
        if tol > 1e-4 * (1 + float(np.abs(want).max())): return   # no longer meaningful in double precision
        close(ref.of(nrb)(*params), want, tol, msg, rec, 'model')
        close(evaluate(nrb, params), want, tol, msg + ' (evaluated by the library)', rec, 'library')
        structure(nrb, msg)
        slopes(nrb, params, msg, rec)
    for o, s, h in keep:
        if o is not nrb: unchanged(o, s, 'the source of a copy, clone or slice (after %s)' % ', '.join(h))
    rec.cls('dim%d' % d); rec.cls('length %d' % len(done))
    rec.cls('4 kinds or more', len(set(done)) >= 4)
    rec.nontrivial(len(set(done)) >= 3)

register('C10', strategy=cases10, check=check10, regress=[
    {'p': [3], 'k': [[-3, -2, -1, 0, 1, 2, 3, 4]], 'rat': 1, 'nf': 1, 'mag': 0, 'net': 3,
     'ops': [['insert', 0, 1, 2, 1], ['reverse', 0, 0, 0, 1], ['removered', 0, 0, 0, 1], ['elevate', 0, 0, 1, 1]]},
    {'p': [2], 'k': [[0, 0, 0, 7, 49, 49, 49]], 'rat': 1, 'nf': 1, 'mag': 0, 'net': 3,
     'ops': [['remap', 0, 0, 0, 1], ['unclamp', 0, 1, 0, 1], ['remap', 0, 4, 4, 1], ['slice', 0, 9, 30, 1]]}])

# ------------------------------------------------------------ C30
@st.composite
def cases30(draw):
    c = draw(gen.nurbs())
    c['kinds'] = draw(st.lists(st.integers(0, 500), min_size=4, max_size=12))
    c['ax'] = draw(st.integers(0, 2)); c['q'] = draw(st.integers(0, 40)); c['r'] = draw(st.integers(0, 40))
    c['o'] = draw(gen.nurbs(dims=(1, 1, 2, 2, 3), maxspans=2, pmax=2, nf=0))
    return c

def requests(c, nrb, other):
    """(name, thunk) of requests that cannot be satisfied."""
    d = nrb.dim; ax = c['ax'] % d
    p = nrb.degree[ax]; U = [float(x) for x in nrb.knots[ax]]
    a, b = U[p], U[len(U) - p - 1]; mid = a + (b - a) * (1 + c['q']) / 42.0
    outs = [np.nextafter(a, -np.inf), np.nextafter(b, np.inf), a - (b - a), b + 10 * (b - a), np.nan, np.inf, -np.inf]
    bad = outs[c['r'] % len(outs)]
    badax = [d, d + 3, -d - 1, -d - 4][c['r'] % 4]
    used = count(U, mid)
    br = inner_of(p, U); x = br[c['r'] % len(br)] if br else mid
    have = count(U, x)
    name = 'uvw'[ax]
    out = [
        ('insert %r' % bad, lambda: nrb.insert(ax, bad)),
        ('insert too often', lambda: nrb.insert(ax, x, max(p - have, 0) + 1)),
        ('insert far too often', lambda: nrb.insert(ax, x, 50)),
        ('insert -1 times', lambda: nrb.insert(ax, mid, -1)),
        ('insert on axis %d' % badax, lambda: nrb.insert(badax, mid)),
        ('refine %r' % bad, lambda: nrb.refine(ax, [mid, bad])),
        ('refine %r alone' % bad, lambda: nrb.refine(ax, bad)),
        ('refine %r among others' % bad, lambda: nrb.refine(ax, np.concatenate([np.linspace(a, b, 12)[1:-1], [bad]]))),
        ('refine too often', lambda: nrb.refine(ax, [x] * (max(p - have, 0) + 1) + [mid] * (1 if mid != x else 0))),
        ('refine on axis %d' % badax, lambda: nrb.refine(badax, [mid])),
        ('remove %r' % bad, lambda: nrb.remove(ax, bad)),
        ('remove -1 times', lambda: nrb.remove(ax, x, -1)),
        ('remove on axis %d' % badax, lambda: nrb.remove(badax, x)),
        ('elevate by -1', lambda: nrb.elevate(ax, -1)),
        ('elevate axis %d' % badax, lambda: nrb.elevate(badax, 1)),
        ('clamp axis %d' % badax, lambda: nrb.clamp(badax)),
        ('clamp side 2', lambda: nrb.clamp(ax, 2)),
        ('clamp side -1', lambda: nrb.clamp(ax, -1)),
        ('unclamp axis %d' % badax, lambda: nrb.unclamp(badax)),
        ('unclamp side 2', lambda: nrb.unclamp(ax, 2)),
        ('unclamp side -1', lambda: nrb.unclamp(ax, -1)),
        ('unclamp with continuity %d' % p, lambda: nrb.unclamp(ax, None, p)),
        ('unclamp with continuity -1', lambda: nrb.unclamp(ax, continuity=-1)),
        ('slice up to %r' % bad, lambda: nrb.slice(ax, mid, bad)),
        ('slice from %r' % bad, lambda: nrb.slice(ax, bad, mid)),
        ('empty slice', lambda: nrb.slice(ax, mid, mid)),
        ('slice backwards', lambda: nrb.slice(ax, b, a)),
        ('slice axis %d' % badax, lambda: nrb.slice(badax, a, b)),
        ('extract at %r' % bad, lambda: nrb.extract(ax, bad)),
        ('extract on axis %d' % badax, lambda: nrb.extract(badax, mid)),
        ('boundary side 2', lambda: nrb.boundary(ax, 2)),
        ('boundary side -1', lambda: nrb.boundary(ax, -1)),
        ('boundary of axis %d' % badax, lambda: nrb.boundary(badax, 0)),
        ('reverse axis %d' % badax, lambda: nrb.reverse(ax, badax)),
        ('swap axis %d' % badax, lambda: nrb.swap(ax, badax)),
        ('transpose, too many axes', lambda: nrb.transpose(list(range(d)) + [0])),
        ('transpose, unknown axis', lambda: nrb.transpose(list(range(d - 1)) + [d + 2])),
        ('remap to an empty interval', lambda: nrb.remap(ax, mid, mid)),
        ('remap backwards', lambda: nrb.remap(ax, b, a)),
        ('remap start behind the end', lambda: nrb.remap(ax, b + 1, None)),
        ('remap end before the start', lambda: nrb.remap(ax, None, a - 1)),
        ('remap to nan', lambda: nrb.remap(ax, a, np.nan)),
        ('remap axis %d' % badax, lambda: nrb.remap(badax, 0, 1)),
        ('evaluate at %r' % bad, lambda: nrb(**{name: bad})),
        ('evaluate at an array with %r' % bad, lambda: nrb(**{name: [a, bad, b]})),
        ('evaluate() at %r' % bad, lambda: nrb.evaluate(**{name: bad})),
        ('gradient at %r' % bad, lambda: nrb.gradient(**{name: [mid, bad]})),
        ('hessian at %r' % bad, lambda: nrb.hessian(**{name: [bad]})),
        ('derivative at %r' % bad, lambda: nrb.derivative(1 + c['q'] % 4, **{name: bad})),
        ('mapped hessian', lambda: nrb.hessian(mapped=True)),
        ('mapped derivative', lambda: nrb.derivative(2 + c['q'] % 3, mapped=True)),
        ('derivative of order 5', lambda: nrb.derivative(5)),
        ('derivative of order 0', lambda: nrb.derivative(0)),
        ('fields of another shape', lambda: nrb(fields=np.zeros(tuple(n + 1 for n in nrb.shape)))),
        ('gradient of fields of another shape', lambda: nrb.gradient(fields=np.zeros(tuple(n + 1 for n in nrb.shape) + (2,)))),
        ('breaks of axis %d' % badax, lambda: nrb.breaks(badax)),
        ('greville of axis %d' % badax, lambda: nrb.greville(badax)),
        ('spans of axis %d' % badax, lambda: nrb.spans(badax)),
        ('transform by a 2x2 matrix', lambda: nrb.transform(np.eye(2))),
        ('rotate about a zero axis', lambda: nrb.rotate(1.0, [0, 0, 0])),
        ('rotate about axis 3', lambda: nrb.rotate(1.0, 3)),
        ('translate along axis 3', lambda: nrb.translate(1.0, 3)),
        ('scale along axis 3', lambda: nrb.scale(2.0, 3)),
        ('translate in 4 dimensions', lambda: nrb.translate([1, 2, 3, 4])),
        ('join along axis %d' % d, lambda: cad.join(nrb, other, d)),
        ('refine with a zero factor', lambda: cad.refine(nrb, factor=[2] * (d - 1) + [0])),
        ('refine with factors for too many spans', lambda: cad.refine(nrb, factor=[[1] * (len(br) + 2)] + [1] * (d - 1) if ax == 0 else [1] * ax + [[1] * (len(br) + 2)] + [1] * (d - ax - 1))),
        ('refine with too many factors', lambda: cad.refine(nrb, factor=[1] * (d + 1))),
        ('refine with continuity %d' % p, lambda: cad.refine(nrb, continuity=[p if i == ax else None for i in range(d)])),
        ('refine to degree 0', lambda: cad.refine(nrb, degree=[0] * d)),
    ]
    if d == 3:
        out += [('extrude a volume', lambda: cad.extrude(nrb, 1.0, 2)),
                ('revolve a volume', lambda: cad.revolve(nrb, 0)),
                ('sweep a volume', lambda: cad.sweep(nrb, cad.line()))]
    if d != other.dim:
        out += [('rule objects of different dimension', lambda: cad.ruled(nrb, other)),
                ('unify objects of different dimension', lambda: cad.compat(nrb, other)),
                ('join objects of different dimension', lambda: cad.join(nrb, other, 0))]
    if other.dim != 1 and d < 3:
        out.append(('sweep along a surface', lambda: cad.sweep(nrb, other)))
    if d <= 2: out.append(('revolve about a zero axis', lambda: cad.revolve(nrb, 0, [0, 0, 0])))
    if d == 1:
        far = nrb.clone().translate([1000.0, 0, 0])
        out.append(('patch of curves that do not meet', lambda: cad.coons([[nrb, nrb], [far, nrb]])))
        if other.dim != 1: out.append(('patch of surfaces', lambda: cad.coons([[nrb, other], [nrb, nrb]])))
        X = np.array(nrb.control[..., :3]) / np.array(nrb.control[..., 3:])
        size = float(np.ptp(X.reshape(-1, 3), axis=0).max()) + 1.0
        off = nrb.clone().translate([0.02 * size, 0, 0]); turn = nrb.clone().translate([0, 0, size])
        E0, E1 = cad.line(nrb(**{name: a}), turn(**{name: a})), cad.line(nrb(**{name: b}), turn(**{name: b}))
        O0 = cad.line(off(**{name: a}), turn(**{name: a}))
        out += [('patch with a gap at the first corner', lambda: cad.coons([[O0, E1], [nrb, turn]])),
                ('patch with a gap on the first side', lambda: cad.coons([[E0, E1], [off, turn]])),
                ('patch with crossed sides', lambda: cad.coons([[E0, E1], [turn, nrb]]))]
    return out + making(c, nrb) + placing(c, nrb) + writing(c, nrb) + misshapen(c, nrb, other)

def making(c, nrb):
    """Creating functions asked for what does not exist."""
    d = nrb.dim; r = c['r']; p = 1 + c['q'] % 3; n = 1 + r % 3
    sh = [[2, 3], [n, 1], [n, 2, p]][c['q'] % 3]
    at = r % len(sh)
    def put(L, v): L = list(L); L[at] = v; return L
    out = [
        ('make a grid of 0 spans', lambda: cad.grid(put(sh, 0), p)),
        ('make a grid of -1 spans', lambda: cad.grid(put(sh, -1), p)),
        ('make a grid of degree 0', lambda: cad.grid(sh, put([p] * len(sh), 0))),
        ('make a grid of degree -1', lambda: cad.grid(sh, -1)),
        ('make a grid of continuity %d' % p, lambda: cad.grid(sh, p, put([0] * len(sh), p))),
        ('make a grid of continuity %d' % (-p - 1), lambda: cad.grid(sh, p, put([0] * len(sh), -p - 1))),
        ('make a grid with too many degrees', lambda: cad.grid(sh, [p] * (len(sh) + 1))),
        ('make a grid with too many limits', lambda: cad.grid(sh, p, limits=[(0, 1)] * (len(sh) + 1))),
        ('make a grid with limits of three numbers', lambda: cad.grid(sh, p, limits=[(0, 1, 2)] * len(sh))),
        ('make a grid in 4 dimensions', lambda: cad.grid([2] * 4)),
        ('make a grid in 0 dimensions', lambda: cad.grid([])),
        ('make a line of three points', lambda: cad.linear(np.zeros((3, 3)))),
        ('make a patch of 2 by 3 points', lambda: cad.bilinear(np.zeros((2, 3, 3)))),
        ('make a box of 2 by 2 points', lambda: cad.trilinear(np.zeros((2, 2, 3)))),
        ('make a line in 4 dimensions', lambda: cad.line([1, 2, 3, 4])),
        ('make a circle about a point in 4 dimensions', lambda: cad.circle(1, [1, 2, 3, 4])),
        ('make an object of 4 axes', lambda: NURBS([[0, 0, 1, 1]] * 4)),
        ('make an object without axes', lambda: NURBS([])),
        ('make an object with an empty domain', lambda: NURBS([[0] * (p + 1) + [1] * (p + 1)] * (d - 1) + [[n] * (2 * p + 2)])),
        ('make an object of too few points', lambda: NURBS(nrb.knots, nrb.control[:1])),
        ('make an object of too many points', lambda: NURBS(nrb.knots, np.concatenate([nrb.control, nrb.control[:1]] + [nrb.control] * 3))),
        ('make an object with other weights', lambda: NURBS(nrb.knots, nrb.points, weights=np.ones(tuple(s + 1 for s in nrb.shape)))),
        ('make an object with other fields', lambda: NURBS(nrb.knots, nrb.control, fields=np.ones(tuple(s + 1 for s in nrb.shape) + (2,)))),
    ]
    if d <= 2:
        out += [('extrude along 4 dimensions', lambda: cad.extrude(nrb, [1, 2, 3, 4])),
                ('extrude along axis 3', lambda: cad.extrude(nrb, 1.0, 3)),
                ('revolve about a point in 4 dimensions', lambda: cad.revolve(nrb, [1, 2, 3, 4])),
                ('revolve about axis 3', lambda: cad.revolve(nrb, 0, 3)),
                ('revolve about an axis in 4 dimensions', lambda: cad.revolve(nrb, 0, [1, 2, 3, 4]))]
    out += [('refine with a factor -1', lambda: cad.refine(nrb, factor=-1)),
            ('refine to degree -1', lambda: cad.refine(nrb, degree=-1)),
            ('refine to continuity %d' % (-max(nrb.degree) - 1), lambda: cad.refine(nrb, continuity=-max(nrb.degree) - 1)),
            ('join along axis -1', lambda: cad.join(nrb, nrb, -1)),
            ('unify along axis %d' % (d + n), lambda: cad.compat(nrb, nrb, axes=d + n))]
    return out

def placing(c, nrb):
    """Transformations that do not exist, of matrices and of objects."""
    T = transform().rotate(0.1 * c['q'], 2).translate([1, c['r'], 3]); M = T.matrix.copy()
    def left(fn):
        try: fn()
        finally: same(T.matrix, M, 'matrix of a transformation after a rejected request')
    return [
        ('transform by 3x3', lambda: transform(np.eye(3))),
        ('transform by 5x5', lambda: transform(np.eye(5))),
        ('compose with 2x2', lambda: left(lambda: T.compose(np.eye(2)))),
        ('compose with 3x4', lambda: left(lambda: T.compose(np.zeros((3, 4))))),
        ('scale in 4 dimensions', lambda: left(lambda: T.scale([1, 2, 3, 4]))),
        ('translate in 4 dimensions', lambda: left(lambda: T.translate([1, 2, 3, 4]))),
        ('translate by a matrix', lambda: left(lambda: T.translate([[1, 2, 3]]))),
        ('scale by a matrix', lambda: left(lambda: T.scale([[1, 2, 3]]))),
        ('rotate about the zero axis', lambda: left(lambda: T.rotate(1.0, [0, 0, 0]))),
        ('rotate about an axis in 4 dimensions', lambda: left(lambda: T.rotate(1.0, [1, 2, 3, 4]))),
        ('rotate about axis 3', lambda: left(lambda: T.rotate(1.0, 3))),
        ('rotate about axis -4', lambda: left(lambda: T.rotate(1.0, -4))),
        ('translate along axis 3', lambda: left(lambda: T.translate(1.0, 3))),
        ('scale along axis -4', lambda: left(lambda: T.scale(2.0, -4))),
        ('scale an object in 4 dimensions', lambda: nrb.scale([1, 2, 3, 4])),
        ('rotate an object about axis -4', lambda: nrb.rotate(1.0, -4)),
        ('rotate an object about an axis in 4 dimensions', lambda: nrb.rotate(1.0, [1, 2, 3, 4])),
    ]

def writing(c, nrb):
    """Files that cannot be written."""
    d = nrb.dim; f = os.devnull; F = nrb.fields; nf = 0 if F is None else F.shape[-1]
    out = [('write fewer coordinates than axes', lambda: PetIGA().write(f, nrb, nsd=d - 1)),
           ('write 4 coordinates', lambda: PetIGA().write(f, nrb, nsd=4)),
           ('write in half precision', lambda: PetIGA(precision='half')),
           ('write unknown scalars', lambda: PetIGA(scalar='x')),
           ('write 16 bit indices', lambda: PetIGA(indices='16bit')),
           ('write a vector of another size', lambda: PetIGA().write_vec(f, np.zeros(int(np.prod(nrb.shape)) * 2 + 1), nrb))]
    if nf:
        out += [('write a missing component', lambda: VTK().write(f, nrb, scalars=dict(a=nf))),
                ('write a vector of a missing component', lambda: VTK().write(f, nrb, vectors=dict(a=[0, nf])))]
    else:
        out.append(('write a component of no fields', lambda: VTK().write(f, nrb, scalars=dict(a=0))))
    return out

def misshapen(c, nrb, other):
    """Arguments of the wrong shape."""
    d = nrb.dim; ax = c['ax'] % d; p = nrb.degree[ax]; n = nrb.shape; K = nrb.knots
    a, b = K[ax][p], K[ax][-p - 1]; mid = a + (b - a) * (1 + c['q']) / 42.0
    z = np.zeros; L = cad.line((0, 0, 0), (1, 2, 0)); S = cad.bilinear(); V = cad.trilinear()
    r = c['r']; T = transform().rotate(0.1 * c['q'], 2).translate([1, r, 3])
    k = [0, 0, 1, 1]
    out = [
        ('make a grid from a table of spans', lambda: cad.grid([[2, 3], [2, 3]])),
        ('make a grid of 2 axes with 3 degrees', lambda: cad.grid([2, 3], [1, 2, 3])),
        ('make a grid of 2 axes with 3 continuities', lambda: cad.grid([2, 3], 2, [0, 1, 1])),
        ('make a grid of 2 axes with 3 wrap flags', lambda: cad.grid([2, 3], 2, 0, wrap=[True] * 3)),
        ('make a grid with one limit', lambda: cad.grid([2, 3], 2, limits=[0])),
        ('make a line of one point', lambda: cad.linear(z((1, 3)))),
        ('make a line of rows of points', lambda: cad.linear(z((2, 2, 3)))),
        ('make a line in 5 dimensions', lambda: cad.linear(z((2, 5)))),
        ('make a patch of 2 points', lambda: cad.bilinear(z((2, 3)))),
        ('make a patch of 2 by 2 by 2 points', lambda: cad.bilinear(z((2, 2, 2, 3)))),
        ('make a patch in 5 dimensions', lambda: cad.bilinear(z((2, 2, 5)))),
        ('make a box of 2 by 2 by 3 points', lambda: cad.trilinear(z((2, 2, 3, 3)))),
        ('make a box in 5 dimensions', lambda: cad.trilinear(z((2, 2, 2, 5)))),
        ('make an arc between three angles', lambda: cad.circle(1, angle=[0, 1, 2])),
        ('make an object with a table of knots', lambda: NURBS([[k]], z((2, 4)) + 1)),
        ('make an object of two knots', lambda: NURBS([[0, 1]], np.ones((1, 4)))),
        ('make an object of three knots', lambda: NURBS([[0, 0, 1]], np.ones((2, 4)))),
        ('make an object of no knots', lambda: NURBS([[]])),
        ('make an object of bare numbers as knots', lambda: NURBS(k)),
        ('make an object of as many points as knots', lambda: NURBS([[0, 1]], np.ones((2, 4)))),
        ('make an object of flat control points', lambda: NURBS([k], np.ones(2))),
        ('make an object in 5 dimensions', lambda: NURBS(K, np.ones(n + (5,)))),
        ('make an object in 1 dimension', lambda: NURBS([k], np.ones((2, 1)))),
        ('make an object in 0 dimensions', lambda: NURBS([k], np.ones((2, 0)))),
        ('make an object with too many indices', lambda: NURBS(K, np.ones((1,) + n + (4,)))),
        ('make an object with too few indices', lambda: NURBS(K + (k,), np.ones(n + (4,)))),
        ('make an object with one weight', lambda: NURBS(K, nrb.points, weights=2.0)),
        ('make an object with weights along one more axis', lambda: NURBS(K, nrb.points, weights=np.ones(n + (2,)))),
        ('make an object with one field value', lambda: NURBS(K, nrb.points, fields=1.0)),
        ('make an object with flat fields', lambda: NURBS(K, nrb.points, fields=z(int(np.prod(n)) + 1))),
        ('insert two knots', lambda: nrb.insert(ax, [mid, mid])),
        ('evaluate fields of a shorter shape', lambda: nrb(fields=z(n[:-1] + (n[-1] + 1,)))),
        ('evaluate one field value', lambda: nrb(fields=2.0)),
        ('differentiate fields of a shorter shape', lambda: nrb.gradient(fields=z(n[:-1] + (n[-1] + 1,)))),
        ('differentiate one field value', lambda: nrb.gradient(fields=1.0)),
        ('clamp side 0.5', lambda: nrb.clamp(ax, 0.5)),
        ('boundary side 0.5', lambda: nrb.boundary(ax, 0.5)),
        ('boundary side None', lambda: nrb.boundary(ax, None)),
        ('unclamp with continuity %r' % (p - 0.5), lambda: nrb.unclamp(ax, None, p - 0.5)),
        ('slice between lists', lambda: nrb.slice(ax, [a, mid], [mid, b])),
        ('extract at a list', lambda: nrb.extract(ax, [a, b])),
        ('transpose, an axis twice', lambda: nrb.transpose([0] * d if d > 1 else [0, 0])),
        ('transpose, one axis less', lambda: nrb.transpose(list(range(d - 1)))),
        ('transform by numbers', lambda: nrb.transform(np.ones(4))),
        ('unify with an unknown option', lambda: cad.compat(nrb, nrb, bogus=1)),
        ('refine to continuity %d and more' % max(nrb.degree), lambda: cad.refine(nrb, continuity=max(nrb.degree) + 1)),
        ('refine with degrees for too many axes', lambda: cad.refine(nrb, degree=[max(nrb.degree)] * (d + 1))),
        ('refine with continuities for too many axes', lambda: cad.refine(nrb, continuity=[0] * (d + 1))),
        ('write 0 coordinates', lambda: PetIGA().write(os.devnull, nrb, nsd=0)),
        ('write a component of flat fields', lambda: VTK().write(os.devnull, nrb, fields=z(int(np.prod(n)) + 1), scalars=dict(a=0))),
    ]
    # fields of the right size and another shape
    mids = [0.5 * (U[q] + U[-q - 1]) for q, U in zip(nrb.degree, K)]
    N = int(np.prod(n)); shapes = {(1,) + n, n + (1, 1), n + (2, 2), (N, 1, 1)[:d + (d > 1)] if d > 1 else (1, N), (2,) + n[1:] + (n[0],)}
    shapes |= {n[::-1], n[::-1] + (1,), n[::-1] + (2,), n[1:] + (n[0],), n[1:] + (n[0], 3), (N,), (1,) * (d - 1) + (N,), (N,) + (1,) * (d - 1)}
    shapes = [s for s in sorted(shapes) if s != n and (len(s) != d + 1 or s[:-1] != n)]
    for s in [shapes[(c['q'] + i * 5) % len(shapes)] for i in range(2)]:
        F = np.ones(s)
        for m in ('evaluate', 'gradient', 'hessian'):
            out.append(('%s fields of shape %r' % (m, s), lambda m=m, F=F: getattr(nrb, m)(F, *mids)))
        out.append(('call with fields of shape %r' % (s,), lambda F=F: nrb(*mids, fields=F)))
        for o in (1, 2, 3, 4): out.append(('derivative of fields of shape %r' % (s,), lambda o=o, F=F: nrb.derivative(o, F, *mids)))
        out.append(('make an object with fields of shape %r' % (s,), lambda F=F: NURBS(K, nrb.control, F)))
    for name, fn in [
        ('transform by a number', lambda: transform(3.0)), ('transform by a row', lambda: transform(np.ones(4))),
        ('transform by 4x4x4', lambda: transform(np.ones((4, 4, 4)))), ('transform by 3x4', lambda: transform(np.ones((3, 4)))),
        ('compose with a row', lambda: T.compose(np.ones(4))), ('compose with a number', lambda: T.compose(1.0)),
        ('rotate about no axis', lambda: T.rotate(0.1, [])), ('rotate about a table', lambda: T.rotate(0.1, [[0, 0, 1]])),
        ('rotate by two angles', lambda: T.rotate([0.1, 0.2], 0)), ('translate by a table', lambda: T.translate([[1, 2]])),
        ('map points in 5 dimensions', lambda: T(z((2, 5))))]:
        def kept(fn=fn):
            M = T.matrix.copy()
            try: fn()
            finally: same(T.matrix, M, 'matrix of a transformation after a rejected request')
        out.append((name, kept))
    if d <= 2:
        out += [('extrude by a table', lambda: cad.extrude(nrb, [[1, 2, 3]])),
                ('revolve about an axis in a table', lambda: cad.revolve(nrb, 0, [[0, 0, 1]])),
                ('revolve about a point in a table', lambda: cad.revolve(nrb, [[0, 0, 0]], 2)),
                ('sweep along a patch', lambda: cad.sweep(nrb, S)), ('sweep along a box', lambda: cad.sweep(nrb, V))]
    if d == 3: out += [('rule volumes', lambda: cad.ruled(nrb, nrb)), ('rule a volume and a patch', lambda: cad.ruled(nrb, S)),
                       ('evaluate at four parameters', lambda: nrb(*([g[0] for g in (nrb.breaks(i) for i in range(3))] + [0.5])))]
    else: out += [('rule with a volume', lambda: cad.ruled(nrb, V))]
    if d == 1: out += [('patch of one row of curves', lambda: cad.coons([[L, L]])), ('patch of three rows of curves', lambda: cad.coons([[L, L]] * 3)),
                       ('patch of a list of curves', lambda: cad.coons([L, L, L, L])), ('join with a patch', lambda: cad.join(nrb, S, 0))]
    if d == 2: out += [('join with a line', lambda: cad.join(nrb, L, 0)), ('join with a box', lambda: cad.join(nrb, V, 0)), ('join along axis -3', lambda: cad.join(nrb, nrb, -3))]
    return out

def check30(c, rec):
    nrb = gen.make(c, NURBS); other = gen.make(c['o'], NURBS)
    R = gen.ref_of(c)
    s, so = snap(nrb), snap(other)
    reqs = requests(c, nrb, other)
    arrid = (id(nrb.array), [id(k) for k in nrb.knots])
    for k in c['kinds']:
        name, fn = reqs[k % len(reqs)]
        raises(fn, name)
        unchanged(nrb, s, 'after the rejected request to %s' % name)
        unchanged(other, so, 'other object after the rejected request to %s' % name)
        rec.cls(name.split(' ')[0])
    params = gen.grid_for(c['p'], c['k'])
    close(evaluate(nrb, params), R(*params), 1e-11 * R.scale(), 'evaluation after rejected requests')
    ax = c['ax'] % nrb.dim; p = nrb.degree[ax]; U = [float(x) for x in nrb.knots[ax]]
    x = pick(p, U, c['q'])
    if x is not None and count(U, x) < p:
        nrb.insert(ax, x)
        close(evaluate(nrb, params), R(*params), 1e-10 * R.scale(), 'insertion after rejected requests')
    rec.cls('dim%d' % nrb.dim)
    rec.nontrivial()

register('C30', strategy=cases30, check=check30, regress=[
    {'p': [2, 1], 'k': [[0, 0, 0, .5, 1, 1, 1], [0, 0, 1, 1]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 3, 'kinds': list(range(k, k + 14)),
     'ax': i, 'q': 20, 'r': r, 'o': {'p': [1], 'k': [[0, 0, 1, 1]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 5}}
    for i in (0, 1) for r in (0, 1, 2, 4) for k in range(0, 154, 14)] + [
    {'p': [3], 'k': [[0, 0, 0, 0, .5, 1, 1, 1, 1]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 3, 'kinds': list(range(k, k + 15)),
     'ax': 0, 'q': 20, 'r': 3, 'o': {'p': [1, 1], 'k': [[0, 0, 1, 1]] * 2, 'rat': 0, 'nf': 0, 'mag': 0, 'net': 5}}
    for k in range(0, 154, 14)])
