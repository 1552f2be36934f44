"""C23 basis functions, C24 structure queries, C25 quadrature and element data."""
import numpy as np
from hypcompat import st
import gen, ref
from core import register, need, close, same, raises, Violation, finite
from sut import NURBS, bsp, iga, structure

LD = np.longdouble

def span_of(p, U, x): return ref.spanof(p, U, x)

# ------------------------------------------------------------ C23
@st.composite
def cases23(draw):
    a = draw(gen.axes(pmax=7, maxspans=6) if draw(st.integers(0, 9)) else st.one_of(gen.axes(pmin=8, pmax=20, maxspans=3), gen.axes(pmax=3, maxspans=100)))
    c = {'p': a['p'], 'k': a['k']}
    c['u'] = [draw(gen.tokens()) for _ in range(draw(st.integers(1, 5)))]
    c['d'] = draw(st.integers(0, a['p'])); c['full'] = draw(st.booleans())
    c['off'] = draw(st.integers(0, 9)); c['arr'] = draw(st.integers(0, 2))
    if draw(st.integers(0, 9)) == 0: c['graded'] = draw(st.sampled_from([1, 9, 20, 60]))
    return c

def knotarr(U, k):
    if k == 0: return np.array(U)
    if k == 1: return list(U)
    b = np.zeros(2 * len(U)); b[::2] = U
    return b[::2]

def check23(c, rec):
    if c.get('graded'):
        e = min(c['graded'], int(900 / c['p'] / len(set(c['k']))))       # no overflow in the derivatives
        c = dict(c, k=gen.grade([float(t) for t in c['k']], e)); rec.cls('knots crowded towards zero', len(set(c['k'])) > 2 and c['k'][0] == 0)
    p, U = c['p'], [float(t) for t in c['k']]; A = knotarr(U, c['arr']); n = len(U) - p - 2
    us = [gen.value(t, p, U) for t in c['u']]
    d = p if c['full'] else c['d']
    D, B = ref.basis(p, U, us, p)
    for r, u in enumerate(us):
        k = span_of(p, U, u)
        got = bsp.FindSpan(p, A, u)
        need(got == k, 'span of %r in %r is %r instead of %d', u, U, got, k)
        need(U[got] <= u <= U[got + 1] and U[got] < U[got + 1], 'span %r of %r', got, u)
        m = U.count(u)
        need(bsp.FindMult(p, A, u) == m, 'multiplicity of %r in %r is %r instead of %d', u, U, bsp.FindMult(p, A, u), m)
        need(bsp.FindMult(p, A, u, k) == m, 'multiplicity (span given) of %r in %r is %r instead of %d', u, U, bsp.FindMult(p, A, u, k), m)
        s = bsp.FindSpanMult(p, A, u)
        need(tuple(int(t) for t in s) == (k, m), 'FindSpanMult(%r) gave %r instead of %r', u, s, (k, m))
        want = D[0][r, k - p:k + 1]
        for nm, N in (('', bsp.EvalBasisFuns(p, A, u)), (' (span given)', bsp.EvalBasisFuns(p, A, u, k))):
            close(N, want, 1e-13, 'basis functions%s at %r' % (nm, u), rec, 'values')
            need((N >= -1e-15).all(), 'negative basis function at %r: %r', u, N.tolist())
            need(abs(N.sum() - 1) < 1e-13, 'basis functions at %r add up to %r', u, N.sum())
        off = np.delete(D[0][r], slice(k - p, k + 1))
        need(not np.abs(off).any(), 'reference: basis functions outside the span')
        args = [(p, A, u)] if c['full'] else [(p, A, u, d), (p, A, u, d, k)]
        for a in args:
            ders = bsp.EvalBasisFunsDers(*a)
            need(ders.shape == (d + 1, p + 1), 'derivatives have shape %r', ders.shape)
            for q in range(d + 1):
                w = D[q][r, k - p:k + 1]; b = B[q][r, k - p:k + 1]
                tol = 1e-12 * max(float(b.max()), 1e-300)
                close(ders[q], w, tol, 'derivative %d of the basis functions at %r' % (q, u), rec, 'derivative')
                if q: need(abs(ders[q].sum()) <= 1e-12 * (p + 1) * max(float(b.max()), 1e-300), 'derivatives %d at %r add up to %r', q, u, ders[q].sum())
        # the right end of a span which is named: the polynomials of that span
        if not c.get('graded') and c['off'] % 2 == 0:
            x = U[k + 1]; W = [-t for t in reversed(U)]; j = n - k + p
            if span_of(p, W, -x) == j:
                DL, BL = ref.basis(p, W, [-x], p)
                ders = bsp.EvalBasisFunsDers(p, A, x, p, k)
                for q in range(p + 1):
                    w = DL[q][0, j - p:j + 1][::-1] * (-1) ** q; b = max(float(BL[q][0, j - p:j + 1].max()), 1e-300)
                    close(ders[q], w, 1e-12 * b, 'derivative %d of the basis functions of span %d at its right end %r' % (q, k, x), rec, 'right end')
                    if q == 0: close(bsp.EvalBasisFuns(p, A, x, k), w, 1e-13, 'basis functions of span %d at its right end %r' % (k, x), rec, 'right end')
                rec.cls('right end of a span')
        rec.cls('at a knot', u in U); rec.cls('at an end', u in (U[p], U[n + 1]))
    X = np.array(us) if c['arr'] != 1 else us
    O, N = iga.BasisDataCol(p, A, X) if c['full'] else iga.BasisDataCol(p, A, X, d)
    need(O.shape == (len(us),) and N.shape == (len(us), p + 1, d + 1), 'collocation data of shape %r, %r', O.shape, N.shape)
    for r, u in enumerate(us):
        k = span_of(p, U, u)
        need(O[r] == k - p, 'first basis function at %r is %r instead of %d', u, O[r], k - p)
        for q in range(d + 1):
            b = float(B[q][r, k - p:k + 1].max())
            close(N[r, :, q], D[q][r, k - p:k + 1], 1e-12 * max(b, 1e-300), 'collocation data, derivative %d at %r' % (q, u), rec, 'collocation')
    for q in (-1, p + 1):
        raises(lambda: bsp.EvalBasisFunsDers(p, A, us[0], q), 'derivative order %d for degree %d' % (q, p))
    rec.cls('degree %d' % p); rec.cls('unclamped', not (gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1)))
    rec.nontrivial(p > 1 and len(set(U)) > 2)

register('C23', strategy=cases23, check=check23, regress=[
    {'p': 2, 'k': [0, 0, 0, 1, 1, 2, 2, 2], 'u': [['x', 1.0], ['x', 2.0], ['x', 0.0], ['x', float(np.nextafter(1, 2))], ['x', float(np.nextafter(1, 0))]],
     'd': 2, 'full': True, 'off': 0, 'arr': 0}])

# ------------------------------------------------------------ C24
@st.composite
def cases24(draw):
    c = draw(gen.nurbs(pmax=draw(st.sampled_from([None, 7])), mags=False))
    e = draw(st.sampled_from([0] * 7 + [-45, -24, 20, 40]))
    if e: c['k'] = [[float(np.ldexp(t, e)) for t in U] for U in c['k']]; c['e'] = e
    if draw(st.integers(0, 7)) == 0: c['graded'] = draw(st.sampled_from([1, 9, 20, 60]))
    c['then'] = [[draw(st.integers(0, 11)), draw(st.integers(0, 60)), draw(st.integers(0, 60))] for _ in range(draw(st.integers(0, 4)))]
    return c

def then24(nrb, k, i, j):
    """One edit; the result."""
    import ops
    d = nrb.dim; ax = i % d; p = nrb.degree[ax]
    if k == 0: return nrb.reverse(*([ax] if j % 2 else []))
    if k == 1: return nrb.remap(ax, -1.0 + j % 4, 3.5 + j % 3)
    if k in (2, 3):
        t = ops.inside(nrb, ax, i)
        if t is None or max(nrb.shape) > 40: return nrb
        return nrb.insert(ax, t) if k == 2 else nrb.refine(ax, [t])
    if k == 4: return nrb.elevate(ax, 1) if p < 8 and nrb.shape[ax] < 30 and nrb.array.size < 3000 else nrb
    if k == 5: return nrb.swap(ax, j % d)
    if k == 6: return nrb.transpose()
    if k == 7: return nrb.clamp(ax, (None, 0, 1)[j % 3])
    if k == 8: return nrb.unclamp(ax, (None, 0, 1)[j % 3], j % p)
    if k == 9:
        inn = ops.inner(nrb, ax)
        return nrb.remove(ax, inn[j % len(inn)], 1, 1e9) if inn else nrb
    if k == 10:
        inn = ops.inner(nrb, ax); a, b = ops.dom(nrb, ax)
        return nrb.slice(ax, inn[j % len(inn)] if inn else a, None)
    U = nrb.knots[ax]; U *= 2.0; U += np.ptp(U)     # in place
    return nrb

def lobatto_points(n):
    """Gauss-Lobatto points on [-1,1]: ends and the roots of P'_{n-1}."""
    return LOB(n)[0]

_leg, _lob = {}, {}
def legendre(k, x):
    """P_k(x), P_k'(x) in extended precision."""
    x = np.asarray(x, dtype=LD); a, b = np.ones_like(x), x.copy()
    da, db = np.zeros_like(x), np.ones_like(x)
    if k == 0: return a, da
    for j in range(1, k):
        c = ((2 * j + 1) * x * b - j * a) / (j + 1)
        dc = da + (2 * j + 1) * b
        a, b, da, db = b, c, db, dc
    return b, db

def LEG(q):
    if q not in _leg:
        x = np.cos(np.pi * (np.arange(q, 0, -1, dtype=LD) - LD('0.25')) / (q + LD('0.5')))
        for _ in range(60):
            P, dP = legendre(q, x); x = x - P / dP
        P, dP = legendre(q, x)
        _leg[q] = x, 2 / ((1 - x * x) * dP * dP)
    return _leg[q]

def LOB(q):
    if q not in _lob:
        x = np.cos(np.pi * np.arange(q - 1, -1, -1, dtype=LD) / (q - 1))
        n = q - 1
        for _ in range(80):
            P, dP = legendre(n, x[1:-1])
            y = x[1:-1]; ddP = (2 * y * dP - n * (n + 1) * P) / (1 - y * y)
            x[1:-1] = y - dP / ddP
        x[0], x[-1] = -1, 1
        P, _ = legendre(n, x)
        _lob[q] = x, 2 / (n * (n + 1) * P * P)
    return _lob[q]

def subdivide(br, x, p):
    out = []
    for a, b in zip(br[:-1], br[1:]):
        a, b = LD(a), LD(b)
        out += [a] + [a + (b - a) * (t + 1) / 2 for t in x[1:-1]]
    return out + [LD(br[-1])]

def check24(c, rec):
    if c.get('graded'):
        c = dict(c, k=[gen.grade([float(t) for t in U], c['graded']) for U in c['k']])
        c['then'] = []; rec.cls('knots crowded towards zero', any(len(set(U)) > 2 and U[0] == 0 for U in c['k']))
    nrb = gen.make(c, NURBS); d = nrb.dim
    allq = dict((q, getattr(nrb, q)()) for q in ('breaks', 'spans', 'greville', 'lagrange'))
    lob = max(c['p']) <= 9
    if lob: allq['lobatto'] = nrb.lobatto()
    allm = nrb.breaks(mults=True)
    for q, v in allq.items(): need(len(v) == d, '%s() gives %d entries for %d axes', q, len(v), d)
    need(len(allm) == d, 'breaks(mults=True) gives %d entries', len(allm))
    for i, (p, U) in enumerate(zip(c['p'], c['k'])):
        U = [float(t) for t in U]; n = len(U) - p - 2
        for ax in (i, i - d):
            for q, v in allq.items(): same(getattr(nrb, q)(ax), v[i], '%s(%d)' % (q, ax))
        a, b = U[p], U[n + 1]; sz = max(abs(a), abs(b))
        br = sorted(set(U[p:n + 2]))
        same(allq['breaks'][i], br, 'breaks of %r' % U)
        mu = [U.count(t) for t in br]; mu[0] = min(mu[0], p); mu[-1] = min(mu[-1], p)
        u, s = allm[i]
        same(u, br, 'breaks (with multiplicities)'); same(s, mu, 'multiplicities of the breaks of %r' % U)
        u, s = nrb.breaks(i, mults=True)
        same(u, br, 'breaks'); same(s, mu, 'multiplicities')
        sp = [k for k in range(p, n + 1) if U[k] < U[k + 1]]
        same(allq['spans'][i], sp, 'spans of %r' % U)
        g = np.array([sum(LD(t) for t in U[j + 1:j + p + 1]) / p for j in range(n + 1)])
        big = max(abs(t) for t in U)
        close(allq['greville'][i], g, 4e-16 * (p + 1) * big + 1e-300, 'Greville points', rec, 'greville')
        close(iga.Greville(p, np.array(U)), g, 4e-16 * (p + 1) * big + 1e-300, 'iga.Greville', rec, 'greville')
        x = np.linspace(LD(-1), LD(1), p + 1) if p > 1 else np.array([-1, 1])
        x = -1 + 2 * np.arange(p + 1, dtype=LD) / p
        L = np.asarray(allq['lagrange'][i])
        close(L, np.array(subdivide(br, x, p)), 2e-15 * sz + 1e-300, 'Lagrange points', rec, 'lagrange')
        close(L[::p], br, 1e-15 * sz, 'breaks among the Lagrange points')
        need((np.diff(L) > 0).all(), 'Lagrange points do not increase')
        if lob:
            L = np.asarray(allq['lobatto'][i])
            close(L, np.array(subdivide(br, LOB(p + 1)[0], p)), 2e-15 * sz + 1e-300, 'Lobatto points', rec, 'lobatto')
            close(L[::p], br, 1e-15 * sz, 'breaks among the Lobatto points')
        rec.cls('degree %d' % p); rec.cls('unclamped', not (gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1)))
        rec.cls('repeated interior knot', len(br) > 2 and max(mu[1:-1]) > 1)
        if p > 1 and len(br) > 2: rec.nontrivial()
    rec.cls('dim%d' % d); rec.cls('tiny domain', c.get('e', 0) < 0); rec.cls('wide domain', c.get('e', 0) > 0)
    names = []
    for k, i, j in c.get('then', ()):
        names.append(EDIT24[k])
        nrb = then24(nrb, k, i, j)
        structure(nrb, 'after %s' % ', '.join(names))
        rec.cls('after ' + EDIT24[k])

EDIT24 = ['reverse', 'remap', 'insert', 'refine', 'elevate', 'swap', 'transpose', 'clamp', 'unclamp', 'remove', 'slice', 'editing the knots in place']
register('C24', strategy=cases24, check=check24)

# ------------------------------------------------------------ C25
@st.composite
def cases25(draw):
    a = draw(gen.axes(pmax=7, maxspans=6) if draw(st.integers(0, 9)) else st.one_of(gen.axes(pmin=8, pmax=12, maxspans=3), gen.axes(pmax=3, maxspans=60)))
    c = {'p': a['p'], 'k': a['k'], 'd': draw(st.integers(0, a['p'])), 'q': draw(st.integers(1, 10)), 'full': draw(st.integers(0, 2)),
         'net': draw(st.integers(0, 1 << 20)), 'arr': draw(st.integers(0, 2)), 'lob': draw(st.integers(2, 10))}
    if draw(st.integers(0, 9)) == 0: c['graded'] = draw(st.sampled_from([1, 9, 20, 60]))
    return c

def rule(name, X, W, q, deg, want, c, rec):
    need(X.shape == (q,) and W.shape == (q,), '%s rule with %d points has shape %r', name, q, X.shape)
    need((W > 0).all(), '%s rule with %d points: weights %r', name, q, W.tolist())
    need((np.diff(X) > 0).all(), '%s rule with %d points: points %r', name, q, X.tolist())
    need(X[0] >= -1 and X[-1] <= 1, '%s rule with %d points: points %r', name, q, X.tolist())
    close(X, -X[::-1], 1e-15, '%s points with %d points are not symmetric' % (name, q))
    close(W, W[::-1], 1e-15, '%s weights with %d points are not symmetric' % (name, q))
    for k in range(deg + 1):
        P, dP = legendre(k, X)
        v = (P * W).sum(); e = (np.abs(dP) * W).sum() * 1e-15 + 4e-15
        need(abs(v - (2 if k == 0 else 0)) <= e, '%s rule with %d points: integral of the Legendre polynomial of degree %d is %r', name, q, k, float(v))
    # a random polynomial on a random interval
    co = gen.unit(c['net'] + q, (deg + 1,)) * 2 - 1
    a = -float(gen.unit(c['net'], (1,))[0]); b = 0.25 + float(gen.unit(c['net'] + 1, (1,))[0])
    t = (X.astype(LD) + 1) / 2 * (b - a) + a
    got = (W * sum(co[j] * t ** j for j in range(deg + 1))).sum() * (b - a) / 2
    w = sum(LD(co[j]) * (LD(b) ** (j + 1) - LD(a) ** (j + 1)) / (j + 1) for j in range(deg + 1))
    s = sum(abs(co[j]) * max(abs(a), b) ** j for j in range(deg + 1)) * (b - a)
    need(abs(got - w) <= 1e-14 * s * (deg + 1), '%s rule with %d points: integral of a polynomial of degree %d is %r instead of %r', name, q, deg, float(got), float(w))
    close(X, want[0], 1e-15, '%s points' % name, rec, 'points'); close(W, want[1], 3e-15, '%s weights' % name, rec, 'weights')

def check25(c, rec):
    if c.get('graded'):
        e = min(c['graded'], int(900 / c['p'] / len(set(c['k']))))       # no overflow in the derivatives
        c = dict(c, k=gen.grade([float(t) for t in c['k']], e)); rec.cls('knots crowded towards zero', len(set(c['k'])) > 2 and c['k'][0] == 0)
    p, U = c['p'], [float(t) for t in c['k']]; n = len(U) - p - 2; q, d = c['q'], c['d']
    from props.kernels import knotarr
    A = knotarr(U, c['arr'])
    X, W = iga.GaussLegendreRule(q)
    rule('Gauss-Legendre', X, W, q, 2 * q - 1, LEG(q), c, rec)
    X2, W2 = iga.GaussLobattoRule(c['lob'])
    rule('Gauss-Lobatto', X2, W2, c['lob'], 2 * c['lob'] - 3, LOB(c['lob']), c, rec)
    need(X2[0] == -1 and X2[-1] == 1, 'Gauss-Lobatto ends %r', X2.tolist())
    rec.cls('Legendre %d' % q); rec.cls('Lobatto %d' % c['lob'])
    if c['full'] == 0 and p < 10: d, q = p, p + 1; args = ()
    elif c['full'] == 1 and p < 10: q = p + 1; args = (d,)
    else: args = (d, q)
    O, J, Wq, Xq, N = iga.BasisData(p, A, *args)
    sp = [k for k in range(p, n + 1) if U[k] < U[k + 1]]; r = len(sp)
    need(O.shape == (r,) and J.shape == (r,) and Wq.shape == (q,) and Xq.shape == (r, q) and N.shape == (r, q, p + 1, d + 1),
         'element data have shapes %r %r %r %r %r', O.shape, J.shape, Wq.shape, Xq.shape, N.shape)
    same(O, [k - p for k in sp], 'first basis functions of the elements of %r' % U)
    lx, lw = LEG(q)
    close(Wq, lw, 3e-15, 'element weights', rec, 'weights')
    sz = max(abs(U[p]), abs(U[n + 1]))
    for e, k in enumerate(sp):
        a, b = LD(U[k]), LD(U[k + 1])
        close(J[e], (b - a) / 2, 4e-16 * float(b - a) + 1e-300, 'Jacobian of element %d' % e, rec, 'jacobian')
        close(Xq[e], a + (lx + 1) * (b - a) / 2, 3e-16 * sz + 3e-15 * float(b - a), 'points of element %d' % e, rec, 'element points')
        if not ((Xq[e] > U[k]) & (Xq[e] < U[k + 1])).all(): continue   # element of a few units in the last place
        D, B = ref.basis(p, U, Xq[e], d)
        for m in range(d + 1):
            b = B[m][:, k - p:k + 1].max()
            close(N[e, :, :, m], D[m][:, k - p:k + 1], 1e-12 * max(float(b), 1e-300), 'derivatives %d in element %d' % (m, e), rec, 'basis')
    # integral of a spline over its domain
    if 2 * q - 1 >= p:
        C = gen.unit(c['net'] + 9, (n + 1,)) * 2 - 1
        got = sum(float(J[e]) * (Wq * (N[e, :, :, 0] @ C[O[e]:O[e] + p + 1])).sum() for e in range(r))
        lx, lw = LEG(p + 1); w = LD(0)
        for k in sp:
            h = (LD(U[k + 1]) - LD(U[k])) / 2
            x = LD(U[k]) + (lx + 1) * h
            D, _ = ref.basis(p, U, x, 0)
            w += h * (lw * (D[0] @ C.astype(LD))).sum()
        L = U[n + 1] - U[p]
        need(abs(got - w) <= 2e-13 * L + 2e-15 * sz * (n + 1), 'integral of a spline of degree %d over %r with %d points is %r instead of %r', p, U, q, got, float(w))
        rec.cls('spline integrated'); rec.nontrivial(p > 1 and r > 1)
    for bad in (0, 11): raises(lambda: iga.GaussLegendreRule(bad), 'a Gauss-Legendre rule with %d points' % bad)
    for bad in (1, 11): raises(lambda: iga.GaussLobattoRule(bad), 'a Gauss-Lobatto rule with %d points' % bad)

_b = {'p': 2, 'k': [0, 0, 0, 1, 2, 2, 2], 'd': 1, 'full': 2, 'net': 5, 'arr': 0}
register('C25', strategy=cases25, check=check25, regress=[dict(_b, q=i, lob=max(2, i)) for i in range(1, 11)])
