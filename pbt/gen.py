"""Generators (Hypothesis) and their deterministic interpretation.

Cases are plain JSON values.  Everything random is drawn by Hypothesis; control
nets are expanded from one drawn integer, which loses nothing because results
depend linearly on the (homogeneous) net.
"""
import math
import numpy as np
from hypcompat import st

# ------------------------------------------------------------ pseudo nets
def splitmix(seed, n):
    z = (np.uint64(seed % (1 << 63)) * np.uint64(0x9E3779B97F4A7C15)
         + np.arange(1, n + 1, dtype=np.uint64) * np.uint64(0xD1B54A32D192ED03))
    with np.errstate(over='ignore'):
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    return z

def unit(seed, shape):
    """Deterministic values in [0,1), multiples of 2**-10."""
    n = int(np.prod(shape)) if len(shape) else 1
    with np.errstate(over='ignore'):
        z = splitmix(seed, n)
    return ((z >> np.uint64(40)) % np.uint64(1024)).astype('d').reshape(shape) / 1024.0

# ------------------------------------------------------------ knot vectors
DOMAINS = [(0.0, 1.0), (0.0, 1.0), (0.0, 1.0), (0.0, 2.0), (-1.0, 1.0), (2.0, 5.0),
           (0.0, 49.0), (0.1, 0.7), (-0.3, 0.6), (0.0, 0.001), (0.0, 2.0**-40), (-1e6, 3e6), (1e-9, 3e-9), (100.0, 1000.0), (-7.0, -4.9)]
WIDTHS = [1.0, 1.0, 1.0, 2.0, 3.0, 5.0, 0.37, 0.1]

def domains(draw):
    i = draw(st.integers(0, len(DOMAINS) + 2))
    if i < len(DOMAINS): return DOMAINS[i]
    a = draw(st.integers(-4000, 4000)) / 333.0
    L = draw(st.integers(1, 9000)) / 700.0
    return (a, a + L)

@st.composite
def axes(draw, pmax=5, maxspans=5, ends='any', pmin=1, dom=None, nmax=None):
    """One axis: {'p':degree,'k':[knots]}."""
    p = draw(st.integers(pmin, pmax))
    a, b = dom if dom is not None else domains(draw)
    ns = draw(st.integers(1, maxspans))
    if draw(st.booleans()):
        w = [1.0] * ns
    else:
        w = [draw(st.sampled_from(WIDTHS)) for _ in range(ns)]
    cum = np.cumsum([0.0] + w); tot = cum[-1]
    br = [a] + [a + (b - a) * (c / tot) for c in cum[1:-1]] + [b]
    style = draw(st.integers(0, 3))
    mu = []
    for _ in range(ns - 1):
        if style == 0: mu.append(1)
        elif style == 1: mu.append(p)
        else: mu.append(draw(st.integers(1, p)))
    if nmax is not None:
        while p + 1 + sum(mu) > nmax and any(m > 1 for m in mu):
            mu[mu.index(max(mu))] -= 1
    inner = [u for u, m in zip(br[1:-1], mu) for _ in range(m)]
    def side(left):
        kind = {'clamped': 0, 'any': draw(st.integers(0, 4))}[ends] if ends != 'unclamped' else draw(st.integers(3, 4))
        if kind <= 2: return [a if left else b] * (p + 1)
        s = draw(st.integers(1, p + (ends != 'unclamped')))
        if ends == 'unclamped': s = min(s, max(1, p - 1))
        out = [a if left else b] * s
        x = out[0]
        for _ in range(p + 1 - s):
            g = draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.0, 0.3])) * (b - a) / ns
            x = x - g if left else x + g
            out.append(x)
        return out[::-1] if left else out
    per = ends != 'clamped' and draw(st.integers(0, 5)) == 0
    if per:
        # periodic extension with interior knots [a + inner]
        core = [a] + inner
        T = b - a
        L, i = [], 0
        seqn = len(core)
        lefts = []
        k = -1
        while len(lefts) < p:
            q, r = divmod(k, seqn); lefts.append(core[r] + q * T); k -= 1
        rights = []
        k = seqn + 1
        while len(rights) < p:
            q, r = divmod(k, seqn); rights.append(core[r] + q * T); k += 1
        knots = lefts[::-1] + [a] + inner + [b] + rights
        knots = sorted(knots)
    else:
        L, R = side(True), side(False)
        if ends != 'clamped' and p > 1:
            # copies of an unclamped end inside of the domain, as inserting there leaves them
            if L.count(a) < p and draw(st.integers(0, 5)) == 0: L = L + [a] * draw(st.integers(1, p - L.count(a)))
            if R.count(b) < p and draw(st.integers(0, 5)) == 0: R = [b] * draw(st.integers(1, p - R.count(b))) + R
        knots = L + inner + R
    return {'p': p, 'k': [float(x) for x in knots]}

def grade(U, e):
    """The knots of an axis beginning at zero, with the interior ones crowded towards zero."""
    if U[0] != 0: return U
    v = sorted(set(U)); m = len(v) - 1
    e = min(e, 600.0 // m if m > 0 else e)          # far from the underflow
    new = dict((t, float(np.ldexp(t, -int(e) * (m - j)))) for j, t in enumerate(v))
    return [new[t] for t in U]

def crowd(draw, c):
    """Sometimes crowd the interior knots towards zero (a graded mesh)."""
    if draw(st.integers(0, 11)) == 0:
        e = draw(st.sampled_from([2, 7, 20]))
        c['k'] = [grade([float(t) for t in U], e) for U in c['k']]
        c['net'] -= c['net'] % len(WAYS); c['crowd'] = e

@st.composite
def nurbs(draw, dim=None, dims=(1, 1, 1, 2, 2, 3), ends='any', maxspans=None, pmax=None,
          rat=None, nf=None, mags=True, dom=None, pmin=1, big=None):
    if big is None: big = dim is None and pmax is None and maxspans is None and 1 in dims
    if big and draw(st.integers(0, 11)) == 0:
        # a curve of high degree, with many spans or with many fields
        k = draw(st.integers(0, 2))
        a = draw(axes(pmin=6, pmax=11, maxspans=4, ends=ends, dom=dom, nmax=30) if k == 0 else
                 axes(pmin=pmin, pmax=3, maxspans=60, ends=ends, dom=dom, nmax=80) if k == 1 else
                 axes(pmin=pmin, pmax=3, maxspans=3, ends=ends, dom=dom))
        return {'p': [a['p']], 'k': [a['k']], 'rat': draw(st.sampled_from([0, 1, 1, 2, 3])) if rat is None else rat,
                'nf': (draw(st.integers(9, 40)) if k == 2 else draw(st.integers(0, 1))) if nf is None else nf,
                'mag': 0, 'net': draw(st.integers(0, 1 << 20)), 'big': k}
    d = dim if dim is not None else draw(st.sampled_from(list(dims)))
    ms = maxspans if maxspans is not None else (0, 5, 3, 2)[d]
    pm = pmax if pmax is not None else (0, 5, 4, 3)[d]
    ax = [draw(axes(pmax=pm, maxspans=ms, ends=ends, dom=dom, pmin=pmin,
                    nmax=(0, 24, 10, 7)[d])) for _ in range(d)]
    return {'p': [a['p'] for a in ax], 'k': [a['k'] for a in ax],
            'rat': draw(st.sampled_from([0, 0, 1, 1, 1, 1, 2, 3])) if rat is None else rat,
            'nf': draw(st.sampled_from([0] * 8 + [1, 2, 3, 4] * 2 + [5, 9, 12])) if nf is None else nf,
            'mag': draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3])) if mags else 0,
            'sp': draw(st.sampled_from([0] * 12 + [1, 2, 3, 4, 5, 6, 7, 8])),
            'net': draw(st.integers(0, 1 << 20))}

@st.composite
def sizes(draw, d, pmax, maxspans):
    """Limits of degree and spans; now and then larger ones (of curves, mainly)."""
    k = draw(st.integers(0, 11))
    if k == 0: return {'pmax': (0, 8, 5, 3)[d], 'pmin': (1, 5, 1, 1)[d], 'maxspans': 2}
    if k == 1 and d == 1: return {'pmax': 3, 'maxspans': 25}
    return {'pmax': pmax, 'maxspans': maxspans}

@st.composite
def maybe_huge(draw, c, one_in=60):
    """Now and then thousands of control points in place of the case drawn."""
    if draw(st.integers(0, one_in - 1)): return c
    d = draw(st.integers(1, 2)); c = dict(c, p=[], k=[])
    for i in range(d):
        p = draw(st.integers(1, 3)); n = draw(st.integers(200, 5000) if d == 1 else st.integers(30, 90))
        a = draw(st.sampled_from([0.0, -1.0, 2.0])); b = a + draw(st.sampled_from([1.0, 3.0, 64.0]))
        c['p'].append(p); c['k'].append([a] * p + np.linspace(a, b, n - p + 1).tolist() + [b] * p)
    return c

MAG = [1.0, 1e4, 1e-3, 1e-9]

def shape_of(c):
    return tuple(len(U) - p - 1 for U, p in zip(c['k'], c['p']))

def data_of(c):
    """(points (..,3), weights (..), fields (..,nf) or None) of a case."""
    shp = shape_of(c)
    m = MAG[c.get('mag', 0)]
    P = (unit(c['net'], shp + (3,)) * 8 - 4) * m
    r = c.get('rat', 0)
    if r == 0: W = np.ones(shp)
    elif r == 1: W = unit(c['net'] + 77, shp) * 1.5 + 0.5
    elif r == 2: W = 10.0 ** (unit(c['net'] + 77, shp) * 2 - 1)
    else: W = 1.5 + 0.01 * unit(c['net'] + 77, shp)      # nearly all the same
    nf = c.get('nf', 0)
    Fd = None
    if nf:
        Fd = unit(c['net'] + 991, shp + (nf,)) * 8 - 4
        if c.get('fmag'): Fd = Fd * c['fmag']
    k = c.get('sp', 0)
    if k: P, W, Fd = special(k, P, W, Fd, r)
    return P, W, Fd

SPECIAL = ['', 'in a plane', 'on a line', 'fields zero', 'one weight but 1', 'fields constant', 'control points repeated', 'whole numbers', 'closed']
def special(k, P, W, Fd, r):
    """Control points, weights or fields which are special in some way."""
    if k == 1: P[..., 2] = 0
    elif k == 2: P[..., 1:] = 0
    elif k == 3 and Fd is not None: Fd[..., :1 + Fd.shape[-1] // 2] = 0; Fd[..., ::2] = 0
    elif k == 4 and r: W = np.full_like(W, 2.5)
    elif k == 5 and Fd is not None: Fd[...] = Fd.flat[0]
    elif k == 6: P[1] = P[0]; P[-2] = P[-1]
    elif k == 7: P = np.round(P); Fd = None if Fd is None else np.round(Fd)
    elif k == 8: P[-1] = P[0]; W[-1] = W[0]
    return P, W, Fd

def plain(c, NURBS, views=False):
    P, W, Fd = data_of(c)
    if views:
        # the knots are pieces of one array, the control points every other entry of theirs
        flat = np.concatenate([np.array(k, dtype='d') for k in c['k']]); at = np.cumsum([0] + [len(k) for k in c['k']])
        K = [flat[i:j] for i, j in zip(at[:-1], at[1:])]
        def v(A): B = np.zeros(A.shape[:-1] + (2 * A.shape[-1],)); B[..., ::2] = A; return B[..., ::2]
        return NURBS(K, v(P), **({} if Fd is None else {'fields': v(Fd)}), **({} if c.get('rat', 0) == 0 else {'weights': v(W)}))
    if c.get('rat', 0) == 0:
        return NURBS([np.array(k) for k in c['k']], P, fields=Fd)
    return NURBS([np.array(k) for k in c['k']], P, fields=Fd, weights=W)

def warm(nrb, der=True):
    """Ask an object for everything it can tell, so that whatever is remembered is remembered.
    What the answers are is checked elsewhere."""
    def q(f, *a, **k):
        try: f(*a, **k)
        except Exception: pass
    for n in ('dim', 'degree', 'shape', 'control', 'points', 'weights', 'fields'): q(getattr, nrb, n)
    for n in ('spans', 'breaks', 'greville', 'lagrange'): q(getattr(nrb, n))
    q(nrb.breaks, mults=True)
    if max(nrb.degree) <= 9: q(nrb.lobatto)
    mid = []
    for p, U in zip(nrb.degree, nrb.knots):
        a, b = float(U[p]), float(U[-p - 1]); mid.append(a + (b - a) * 0.4375)
    q(nrb, *mid)
    q(nrb, *[[x, x] for x in mid], fields=True)
    if der:
        q(nrb.gradient, None, *mid); q(nrb.hessian, None, *mid); q(nrb.gradient, nrb.fields, *mid)
    return nrb

WAYS = ['new', 'new', 'new', 'views', 'queried', 'overwritten', 'transposed', 'copied', 'rescaled']
def way(c): return WAYS[c['net'] % 9]

def make(c, NURBS):
    """Build the igakit object of a case: always the same data, but not always by the
    same road.  What an object is must not depend on its past."""
    w = way(c)
    nrb = plain(c, NURBS, w == 'views')
    if w == 'queried': warm(nrb)
    elif w == 'rescaled':
        # it was much smaller when a knot came and went; powers of two keep the numbers
        A = np.array(nrb.array); nrb.array[..., :3] *= 2.0 ** -20
        for i in range(nrb.dim):
            p, U = nrb.degree[i], nrb.knots[i]; a, b = float(U[p]), float(U[-p - 1]); x = a + (b - a) * 0.4375
            if x not in U and a < x < b and p < 8:
                S = np.array(nrb.array); nrb.insert(i, x); n = nrb.shape[i]; nrb.remove(i, x, 1, 1e9)
                if nrb.shape[i] != n - 1: return plain(c, NURBS)
                for _ in range(1): nrb.array[...] = S
                nrb.knots[i][...] = U
        nrb.scale(2.0 ** 20)
        if (nrb.array != A).any(): nrb = plain(c, NURBS)
    elif w == 'overwritten':
        # knots and control points are documented as modifiable in place
        A, K = np.array(nrb.array), [np.array(k) for k in nrb.knots]
        nrb.array[..., :3] += 1.5; nrb.array[..., 4:] -= 0.75
        for k in nrb.knots: k *= 0.5; k -= 1.0
        warm(nrb)
        nrb.array[...] = A
        for k, u in zip(nrb.knots, K): k[...] = u
    elif w == 'transposed' and nrb.dim > 1:
        d = nrb.dim; P, W, Fd = data_of(c); K = [np.array(k) for k in c['k']]
        mv = lambda A: None if A is None else np.ascontiguousarray(np.moveaxis(A, 0, d - 1))
        t = NURBS(K[1:] + K[:1], mv(P), fields=mv(Fd), **({} if c.get('rat', 0) == 0 else dict(weights=mv(W))))
        nrb = warm(t).transpose([d - 1] + list(range(d - 1)))
    elif w in ('copied', 'transposed'):
        src = warm(nrb)
        nrb = src.copy(); src.array[...] = 0.5
        for k in src.knots: k[...] = np.linspace(-2, -1, len(k))
    return nrb

def ref_of(c):
    from ref import Ref
    P, W, Fd = data_of(c)
    P = P.astype(np.longdouble); W = W.astype(np.longdouble)
    parts = [P * W[..., None], W[..., None]]
    if Fd is not None: parts.append(Fd.astype(np.longdouble) * W[..., None])
    return Ref([np.array(k) for k in c['k']], np.concatenate(parts, axis=-1))

# ------------------------------------------------------------ parameters
@st.composite
def tokens(draw, near=True):
    """One parameter relative to a knot vector."""
    k = draw(st.integers(0, 5))
    if k <= 2:
        return ['f', draw(st.integers(0, 64))]
    if k == 3:
        return ['g', draw(st.integers(1, 9998))]
    if k == 4:
        return ['b', draw(st.integers(0, 6)), 0]
    if near and draw(st.booleans()):
        # close to a break, compared with the length of the element: from 1e-2 down to 1e-14
        return ['e', draw(st.integers(0, 6)), draw(st.integers(7, 46)), draw(st.integers(0, 1))]
    return ['b', draw(st.integers(0, 6)), draw(st.integers(-2, 2)) if near else 0]

def value(tok, p, U):
    """Resolve a token inside the domain of (p, U)."""
    a, b = float(U[p]), float(U[len(U) - p - 1])
    if tok[0] == 'f': x = a + (b - a) * (tok[1] / 64.0) if tok[1] < 64 else b
    elif tok[0] == 'g': x = a + (b - a) * (tok[1] / 9999.0)
    elif tok[0] == 'x': x = tok[1]
    elif tok[0] == 'e':
        br = sorted(set(float(u) for u in U[p:len(U) - p]))
        i = tok[1] % len(br); j = i + (1 if tok[3] else -1)
        x = br[i]
        if 0 <= j < len(br): x += (br[j] - x) * 2.0 ** -tok[2]
    else:
        br = sorted(set(float(u) for u in U[p:len(U) - p]))
        x = br[tok[1] % len(br)]
        x = x + tok[2] * float(np.spacing(max(abs(x), (b - a) / 1024)))   # a few units in the last place
    return min(max(x, a), b)

def sample_params(p, U, per=2, cap=None):
    """Deterministic sampling of the domain: all breaks and `per` points per span."""
    U = [float(u) for u in U]
    a, b = U[p], U[len(U) - p - 1]
    br = sorted(set(u for u in U[p:len(U) - p]))
    out = []
    fr = {1: [0.41], 2: [0.31, 0.77], 3: [0.13, 0.5, 0.85], 4: [0.11, 0.37, 0.59, 0.93]}[per]
    for x, y in zip(br[:-1], br[1:]):
        out.append(x)
        out.extend(min(max(x + (y - x) * f, x), y) for f in fr)
    out.append(br[-1])
    if cap and len(out) > cap:
        idx = np.unique(np.linspace(0, len(out) - 1, cap).round().astype(int))
        out = [out[i] for i in idx]
    return out

def grid_for(nrb_p, nrb_U):
    d = len(nrb_p)
    per = {0: 1, 1: 3, 2: 2, 3: 1}[d]
    cap = {0: None, 1: None, 2: 14, 3: 7}[d]
    return [sample_params(p, U, per, cap) for p, U in zip(nrb_p, nrb_U)]

def mults(p, U):
    """(distinct knots of the domain, multiplicities inside the whole vector)."""
    U = [float(u) for u in U]
    a, b = U[p], U[len(U) - p - 1]
    br = sorted(set(u for u in U if a <= u <= b))
    return br, [U.count(x) for x in br]

def is_clamped(p, U, side):
    return len(set(U[:p + 1])) == 1 if side == 0 else len(set(U[-p - 1:])) == 1
