"""C12-C19: constructor functions of igakit.cad."""
import copy
import numpy as np
from hypcompat import st
import gen, ref
from core import register, need, close, same, raises, Violation
from sut import (NURBS, transform, cad, bsp, iga, valid, same_map, knots_equal, snap, unchanged, evaluate)

LD = np.longdouble
F8 = st.integers(-32, 32).map(lambda i: i / 8.0)

def dom_of(nrb, i):
    p, U = nrb.degree[i], nrb.knots[i]
    return float(U[p]), float(U[-p - 1])

def clamped01(nrb, i, msg):
    p, U = nrb.degree[i], nrb.knots[i].tolist()
    need(U[:p + 1] == [0.0] * (p + 1) and U[-p - 1:] == [1.0] * (p + 1), '%s: axis %d is not clamped at 0 and 1: %r', msg, i, U)

def lin(x, a, b, c, d):
    """x in [a,b] mapped to [c,d], in extended precision, ends exactly."""
    if x == a: return LD(c)
    if x == b: return LD(d)
    y = LD(c) + (LD(x) - LD(a)) * (LD(d) - LD(c)) / (LD(b) - LD(a))
    return min(max(y, LD(c)), LD(d))

def probe(p, U, per=3, cap=None):
    """Ends and points inside the spans of a knot vector, not closer to a knot than rounding moves it."""
    U = [float(u) for u in U]; a, b = U[p], U[len(U) - p - 1]
    br = sorted(set(U[p:len(U) - p]))
    fr = {1: (0.43,), 2: (0.29, 0.81), 3: (0.12, 0.5, 0.87)}[per]
    out = [a] + [x + (y - x) * f for x, y in zip(br, br[1:]) if y - x > 1e-9 * (b - a) for f in fr] + [b]
    if cap and len(out) > cap: out = [out[i] for i in np.unique(np.linspace(0, len(out) - 1, cap).round().astype(int))]
    return out

def probes(nrb):
    d = nrb.dim
    return [probe(p, U, {1: 3, 2: 2, 3: 1}[d], {1: 60, 2: 14, 3: 7}[d]) for p, U in zip(nrb.degree, nrb.knots)]

def flags(c, rec):
    rec.cls('rational', c['rat'] > 0); rec.cls('dim%d' % len(c['p']))
    rec.cls('unclamped', any(not (gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1)) for p, U in zip(c['p'], c['k'])))

# ------------------------------------------------------------ C12
@st.composite
def cases12(draw):
    d = draw(st.sampled_from([1, 1, 2, 2, 3]))
    m = draw(st.sampled_from([1, 2, 2, 2, 3, 4])) if d < 3 else 2
    if draw(st.booleans()):
        dom = draw(st.sampled_from(gen.DOMAINS)); obj = [draw(gen.nurbs(dim=d, dom=dom, **draw(gen.sizes(d, (0, 4, 3, 2)[d], (0, 4, 3, 2)[d])))) for _ in range(m)]
    else:
        obj = [draw(gen.nurbs(dim=d, pmax=(0, 4, 3, 2)[d], maxspans=(0, 4, 3, 2)[d])) for _ in range(m)]
    if m > 1 and draw(st.integers(0, 7)) == 0:
        # the same knots but for one of them, a little off
        o = obj[1] = dict(obj[1], p=list(obj[0]['p']), k=[list(U) for U in obj[0]['k']]); j = draw(st.integers(0, d - 1))
        p, U = o['p'][j], o['k'][j]; inn = sorted({t for t in U if U[p] < t < U[-p - 1]})
        if inn:
            t = inn[draw(st.integers(0, len(inn) - 1))]; br = sorted(set(U[p:len(U) - p])); i = br.index(t)
            h = min(br[i + 1] - t, t - br[i - 1]) * draw(st.sampled_from([1e-8, 1e-6, 1e-5, 1e-3, 0.3]))
            o['k'][j] = [t + h if u == t else u for u in U]
    if d < 3 and draw(st.integers(0, 9)) == 0:
        # degrees far apart
        q = draw(st.integers(5, 8 - d))
        obj[0] = draw(gen.nurbs(dim=d, pmax=q, pmin=q, maxspans=2, dom=None, rat=draw(st.integers(0, 1)), mags=False)); m = len(obj)
        obj[-1] = draw(gen.nurbs(dim=d, pmax=1, maxspans=2, rat=draw(st.integers(0, 1)), mags=False)) if m > 1 else obj[-1]
    if m > 2 and draw(st.integers(0, 3)) == 0: obj[2] = 0       # the same object again
    elif draw(st.integers(0, 15)) == 0: obj = [obj[0]] + [0] * (draw(st.integers(1, 3)) if d < 3 else 1)
    if d == 1 and draw(st.integers(0, 19)) == 0:
        # many objects
        obj = obj + [draw(gen.nurbs(dim=1, pmax=3, maxspans=2, mags=False)) for _ in range(draw(st.integers(5, 12)) - m)]
    axes = draw(st.sampled_from([None, None, 'int', 'neg', 'list', 'array', 'all']))
    return {'o': obj, 'axes': axes, 'ax': draw(st.integers(0, 2)), 'aslist': draw(st.booleans())}

def check12(c, rec):
    twice = 0 in c['o']; c = dict(c, o=[c['o'][0] if o == 0 else o for o in c['o']])
    objs = [gen.make(o, NURBS) for o in c['o']]; Rs = [gen.ref_of(o) for o in c['o']]
    if twice: objs = [objs[0] if o is c['o'][0] else objs[i] for i, o in enumerate(c['o'])]
    snaps = [snap(o) for o in objs]
    d = objs[0].dim; m = len(objs); ax = c['ax'] % d
    kw = {}
    sel = list(range(d))
    if c['axes'] == 'int': kw['axes'] = ax; sel = [ax]
    elif c['axes'] == 'neg': kw['axes'] = ax - d; sel = [ax]
    elif c['axes'] == 'list': sel = [i for i in range(d) if i != ax]; kw['axes'] = list(sel)
    elif c['axes'] == 'array': sel = sorted({ax, 0}); kw['axes'] = np.array(sel)
    elif c['axes'] == 'all': kw['axes'] = list(sel)
    keep = copy.deepcopy(kw)
    if c['aslist']:
        seq = list(objs); out = cad.compat(seq, **kw)
        need(len(seq) == m and all(a is b for a, b in zip(seq, objs)), 'compat changed the list passed in')
    else: out = cad.compat(*objs, **kw)
    if 'axes' in kw: same(kw['axes'], keep['axes'], 'compat: the axes passed in')
    for o, s in zip(objs, snaps): unchanged(o, s, 'compat changed an input')
    need(len(out) == m, 'compat returns %d objects for %d', len(out), m)
    if not (c['aslist'] and m == 1):
        need(all(a is not b for a in out for b in objs), 'compat returns an input object')
    need(len({id(o) for o in out}) == m, 'compat returns the same object twice')
    for i in range(m):
        valid(out[i], 'compat', d, Rs[i].nf)
        need(all(out[i].degree[j] >= objs[i].degree[j] for j in range(d)), 'compat lowered a degree')
        for j in range(d):
            if j not in sel or m == 1:
                same(out[i].knots[j], objs[i].knots[j], 'compat: knots of axis %d, which is not selected,' % j)
    if m > 1:
        for j in sel:
            need(len({o.degree[j] for o in out}) == 1, 'compat: degrees of axis %d differ: %r', j, [o.degree[j] for o in out])
            for o in out[1:]: same(o.knots[j], out[0].knots[j], 'compat: knots of axis %d differ' % j)
            lo = min(dom_of(o, j)[0] for o in objs); hi = max(dom_of(o, j)[1] for o in objs)
            need(dom_of(out[0], j) == (lo, hi), 'compat: domain of axis %d is %r instead of %r', j, dom_of(out[0], j), (lo, hi))
            need(out[0].degree[j] == max(o.degree[j] for o in objs), 'compat: degree %d of axis %d', out[0].degree[j], j)
            exp = merged_knots(objs, j, lo, hi)
            if exp is not None:
                got = [float(u) for u in out[0].knots[j]]
                gb = sorted(set(got)); gm = [got.count(u) for u in gb]
                need(gm == [n for _, n in exp], 'compat: multiplicities %r on axis %d instead of %r', gm, j, [n for _, n in exp])
                close(np.array(gb), np.array([u for u, _ in exp]), 1e-11 * (hi - lo) + 4e-16 * (abs(lo) + abs(hi)), 'compat: breaks of axis %d' % j)
    for i in range(m):
        pr = probes(out[i])
        def phi(params):
            return [[lin(x, *(dom_of(out[i], j) + dom_of(objs[i], j))) for x in params[j]] for j in range(d)]
        same_map(out[i], Rs[i], 'compat, object %d' % i, pr, phi, 1e-8, rec)
    rec.cls('same object twice', twice); rec.cls('%d objects' % m); rec.cls('axes %s' % c['axes']); rec.cls('dim%d' % d)
    doms = {dom_of(o, j) for o in objs for j in sel}
    rec.cls('different domains', len(doms) > 1)
    rec.cls('unclamped', any(not (gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1)) for o in c['o'] for p, U in zip(o['p'], o['k'])))
    rec.nontrivial(m > 1)

def merged_knots(objs, j, lo, hi):
    """Breaks and multiplicities after merging axis j; None if breaks are too close to tell them apart."""
    pm = max(o.degree[j] for o in objs); all_ = []
    for o in objs:
        a, b = dom_of(o, j); p = o.degree[j]
        U = [float(u) for u in o.knots[j]]
        if max(abs(a), abs(b)) > 1e3 * (b - a): return None
        for u in sorted(set(u for u in U if a < u < b)): all_.append((lin(u, a, b, lo, hi), U.count(u) + pm - p))
    all_.sort()
    out = [[LD(lo), pm + 1]]
    for u, m in all_ + [(LD(hi), pm + 1)]:
        g = (u - out[-1][0]) / (LD(hi) - LD(lo))
        if g < 1e-14 * (1 + max(abs(lo), abs(hi)) / (hi - lo)) and u < hi and len(out) > 1: out[-1][1] = max(out[-1][1], m)
        elif g < 1e-9: return None
        else: out.append([u, m])
    return out

register('C12', strategy=cases12, check=check12, regress=[
    {'o': [{'p': [2], 'k': [[-1, -.5, 0, .5, 1, 1.5, 2]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 3},
           {'p': [2], 'k': [[0, 0, 0, .25, 1, 1, 1]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 4}], 'axes': None, 'ax': 0, 'aslist': False},
    {'o': [{'p': [2], 'k': [[0, 0, 0, 7, 49, 49, 49]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 3},
           {'p': [3], 'k': [[.1, .1, .1, .1, .3, .7, .7, .7, .7]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 4}], 'axes': None, 'ax': 0, 'aslist': False}])

# ------------------------------------------------------------ C13
ANG = st.one_of(st.sampled_from([np.pi / 2, np.pi, 1.5 * np.pi, 2 * np.pi, np.pi / 3, 0.01, 1e-3, 3.0, 4.0, 6.0]),
                st.integers(1, 1000).map(lambda i: i * 2 * np.pi / 1000))
START = st.one_of(st.sampled_from([0.0, 0.0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, 2 * np.pi]), st.integers(-700, 700).map(lambda i: i / 100.0))

@st.composite
def angles(draw):
    k = draw(st.integers(0, 7))
    if k == 0: return None
    sweep = draw(ANG) * draw(st.sampled_from([1, 1, -1]))
    if k <= 2: return sweep
    if k == 3: return [None, abs(sweep)]
    if k == 4:
        s = draw(st.integers(0, 600)) / 100.0
        return [s, None]
    s = draw(START)
    return [s, s + sweep]

def arc_range(a):
    if a is None: return 0.0, 2 * np.pi
    if isinstance(a, list):
        s, e = a
        return (0.0 if s is None else s), (2 * np.pi if e is None else e)
    return 0.0, a

def angle_arg(a, form):
    if isinstance(a, list): return tuple(a) if form % 2 else list(a)
    return a

@st.composite
def cases13(draw):
    kind = draw(st.sampled_from(['circle', 'circle', 'circle', 'line', 'linear', 'bilinear', 'trilinear']))
    c = {'kind': kind, 'form': draw(st.integers(0, 5)), 'net': draw(st.integers(0, 1 << 20))}
    if kind == 'circle':
        c['angle'] = draw(angles()); c['r'] = draw(st.sampled_from([1, 1.0, 2.5, 0.01, 1000.0, 0.3]))
        c['c'] = draw(st.one_of(st.none(), F8, st.lists(F8, min_size=1, max_size=3)))
    elif kind == 'line':
        c['pts'] = [draw(st.one_of(F8, st.lists(F8, min_size=1, max_size=3))) for _ in range(draw(st.integers(0, 2)))]
    else:
        c['sd'] = draw(st.sampled_from([None, 2, 3, 3, 4]))
    return c

def arc_check(angle, P, r, msg, start, end, rec):
    """P (k,2): points in order of the parameter, relative to the centre."""
    P = np.asarray(P, dtype=LD)
    rad = np.hypot(P[:, 0], P[:, 1])
    close(rad, np.full(rad.shape, LD(r)), 1e-12 * r, msg + ': radius', rec, 'radius')
    th = np.arctan2(P[:, 1], P[:, 0])
    d = np.diff(th); d = (d + LD(np.pi)) % (2 * LD(np.pi)) - LD(np.pi)
    sg = 1 if end >= start else -1
    need(np.all(d * sg >= -1e-9), '%s: the arc runs backwards', msg)
    for x, y, w in ((P[0], start, 'start'), (P[-1], end, 'end')):
        close(x[:2], np.array([LD(r) * np.cos(LD(y)), LD(r) * np.sin(LD(y))]), 1e-12 * r * (1 + abs(y)), '%s: %s point' % (msg, w), rec, 'ends')
    need(abs(float(d.sum()) - (end - start)) < 1e-9 * (1 + abs(end - start)), '%s: sweeps %r instead of %r', msg, float(d.sum()), end - start)

def fine(nrb, k=7):
    p, U = nrb.degree[0], [float(u) for u in nrb.knots[0]]
    br = sorted(set(U[p:len(U) - p])); out = []
    for x, y in zip(br, br[1:]): out += [x + (y - x) * i / k for i in range(k)]
    return out + [br[-1]]

def check13(c, rec):
    kind = c['kind']; rec.cls(kind)
    if kind == 'circle':
        start, end = arc_range(c['angle'])
        if not 0 < abs(end - start) <= 2 * np.pi: return
        ang = angle_arg(c['angle'], c['form']); keep = copy.deepcopy(ang)
        ctr = c['c']
        if isinstance(ctr, list) and c['form'] % 3 == 0: ctr = np.array(ctr)
        if c['form'] == 4 and c['r'] == 1: nrb = cad.circle(center=ctr, angle=ang)
        else: nrb = cad.circle(c['r'], ctr, ang)
        need(ang == keep, 'circle changed its angle argument')
        msg = 'circle(%r, %r, %r)' % (c['r'], c['c'], c['angle'])
        valid(nrb, msg, 1, 0)
        cc = np.zeros(3)
        if ctr is not None:
            v = np.atleast_1d(c['c']); cc[:len(v)] = v
        clamped01(nrb, 0, msg)
        us = fine(nrb)
        for P in (ref.of(nrb)(us)[..., :3], nrb(us)):
            off = float(np.abs(cc).max())
            Q = np.asarray(P, dtype=LD) - cc
            close(Q[:, 2], np.zeros(len(us)), 1e-13 * (1 + off), msg + ': height')
            arc_check(c['angle'], Q, c['r'] if off < 100 * c['r'] else c['r'], msg, start, end, rec) if off <= 100 * c['r'] else None
        # equal parts at the breaks
        br = nrb.breaks(0)
        for i, u in enumerate(br):
            a = start + (end - start) * i / (len(br) - 1)
            close(nrb(u), cc + c['r'] * np.array([np.cos(a), np.sin(a), 0]), 1e-12 * (c['r'] * (1 + abs(a)) + np.abs(cc).max()), msg + ': break %d' % i)
        rec.cls('negative sweep', end < start); rec.cls('more than half', abs(end - start) > np.pi)
        rec.nontrivial(isinstance(c['angle'], list) or c['c'] is not None)
        return
    if kind == 'line':
        pts = [np.array(p) if c['form'] % 2 else p for p in c['pts']]
        nrb = cad.line(*pts)
        want = [np.zeros(3), np.array([1.0, 0, 0])]
        for i, p in enumerate(c['pts']):
            v = np.atleast_1d(p).astype('d'); want[i] = np.zeros(3); want[i][:len(v)] = v
        P = np.array(want); d = 1
    else:
        d = {'linear': 1, 'bilinear': 2, 'trilinear': 3}[kind]
        if c['sd'] is None:
            nrb = getattr(cad, kind)()
            P = np.zeros((2,) * d + (3,))
            for i in range(d): P[..., i] = np.array([-0.5, 0.5]).reshape([2 if j == i else 1 for j in range(d)])
        else:
            A = gen.unit(c['net'], (2,) * d + (c['sd'],)) * 8 - 4
            if c['sd'] == 4: A[..., 3] = A[..., 3] / 8 + 1     # homogeneous
            arg = A.copy() if c['form'] % 2 else A.tolist(); keep = copy.deepcopy(arg)
            nrb = getattr(cad, kind)(arg)
            same(arg, keep, kind + ': the points passed in')
            P = np.zeros((2,) * d + (max(3, c['sd']),)); P[..., :c['sd']] = A
    msg = kind
    valid(nrb, msg, d, 0)
    need(tuple(nrb.degree) == (1,) * d and tuple(nrb.shape) == (2,) * d, '%s: degree or shape', msg)
    for i in range(d): clamped01(nrb, i, msg)
    ts = [[0.0, 0.125, 0.3, 0.77, 1.0]] * d
    M = np.array([[1 - LD(t), LD(t)] for t in ts[0]])
    want = ref.contract([M] * d, P.astype(LD))
    if want.shape[-1] == 4:
        same(nrb.weights, P[..., 3], msg + ': weights'); want = want[..., :3] / want[..., 3:]
    for got in (ref.of(nrb)(*ts)[..., :3], nrb(*ts)):
        close(got, want, 1e-13 * (1 + np.abs(P).max()), msg, rec, 'patch')
    rec.nontrivial()

register('C13', strategy=cases13, check=check13)

# ------------------------------------------------------------ C14
@st.composite
def cases14(draw):
    d = draw(st.sampled_from([1, 1, 2, 2, 3]))
    deg = draw(st.one_of(st.integers(1, 5), st.lists(st.integers(1, 4), min_size=d, max_size=d)))
    dd = [deg] * d if isinstance(deg, int) else deg
    cont = draw(st.sampled_from(['none', 'scalar', 'list']))
    if cont == 'none': cont = None
    elif cont == 'scalar': cont = draw(st.integers(-min(dd), min(dd) - 1))
    else: cont = [draw(st.integers(-p, p - 1)) for p in dd]
    lim = draw(st.sampled_from(['none', 'one', 'list']))
    L = lambda: list(draw(st.sampled_from([(0.0, 1.0), (-1.0, 1.0), (2.0, 5.0), (0.1, 0.7), (0.0, 49.0), (-3.0, -1.5), (1 / 3, 2.7), (-1.1, 0.3), (0.0, 1e-9), (1e5 / 3, 4e7 / 7)]))) if draw(st.integers(0, 3)) else sorted([draw(st.integers(-999, -1)) / 7, draw(st.integers(0, 999)) / 11])
    lim = None if lim == 'none' else L() if lim == 'one' else [L() for _ in range(d)]
    wrap = draw(st.one_of(st.none(), st.booleans(), st.lists(st.booleans(), min_size=d, max_size=d)))
    shape = draw(st.lists(st.integers(1, (0, 12, 6, 4)[d]), min_size=d, max_size=d))
    if d == 1 and min(dd) < 3 and not draw(st.integers(0, 7)): shape = [draw(st.sampled_from([100, 333, 500, 1000, 1999]))]
    return {'shape': shape, 'deg': deg, 'cont': cont, 'lim': lim, 'wrap': wrap, 'form': draw(st.integers(0, 11))}

def periodic(p, C, inner, a, b, wrap):
    """Expected knot vector: interior knots given, ends clamped or continued periodically."""
    if not wrap: return [a] * (p + 1) + inner + [b] * (p + 1)
    cyc = [a] * (p - C) + inner; T = b - a; L = len(cyc)
    left = [cyc[q % L] + (q // L) * T for q in range(-1 - C, 0)]
    right = [cyc[q % L] + (q // L) * T for q in range(L + p - C, L + p + 1)]
    return left + cyc + [b] * (p - C) + right

def check14(c, rec):
    d = len(c['shape']); f = c['form']
    deg = [c['deg']] * d if isinstance(c['deg'], int) else c['deg']
    cont = [p - 1 for p in deg] if c['cont'] is None else [c['cont']] * d if isinstance(c['cont'], int) else c['cont']
    cont = [x + p if x < 0 else x for x, p in zip(cont, deg)]
    lim = [[0.0, 1.0]] * d if c['lim'] is None else [c['lim']] * d if not isinstance(c['lim'][0], list) else c['lim']
    wrap = [False] * d if c['wrap'] is None else [c['wrap']] * d if isinstance(c['wrap'], bool) else c['wrap']
    if any(C >= p for C, p in zip(cont, deg)): return
    def form(x):
        if isinstance(x, list):
            if f % 4 == 0: return np.array(x, dtype='i') if isinstance(x[0], int) and not isinstance(x[0], bool) else np.array(x)
            if f % 4 == 1 and not isinstance(x[0], list): return tuple(x)
        elif f % 4 == 0 and isinstance(x, int) and not isinstance(x, bool): return np.array(x, dtype='i')
        return copy.deepcopy(x)
    kw = {}
    shape = form(c['shape'])
    if d == 1 and f % 2 == 0: shape = form(c['shape'][0])
    if c['deg'] != 2 or f % 3 or c.get('full'): kw['degree'] = form(c['deg'])
    if c['cont'] is not None: kw['continuity'] = form(c['cont'])
    if c['lim'] is not None: kw['limits'] = form(c['lim'])
    if c['wrap'] is not None: kw['wrap'] = form(c['wrap'])
    keep = copy.deepcopy((shape, kw))
    nrb = cad.grid(shape, **kw)
    same(shape, keep[0], 'grid: the shape passed in')
    need(np.shape(shape) == np.shape(keep[0]), 'grid: the shape passed in')
    for k in kw: need(np.shape(kw[k]) == np.shape(keep[1][k]), 'grid: argument %s', k); same(kw[k], keep[1][k], 'grid: the %s passed in' % k)
    msg = 'grid(%r, %r)' % (shape, kw)
    valid(nrb, msg, d, 0)
    need(tuple(nrb.degree) == tuple(deg), '%s: degree %r', msg, nrb.degree)
    for i in range(d):
        p, C, (a, b), N = deg[i], cont[i], lim[i], c['shape'][i]
        inner = [LD(a) + (LD(b) - LD(a)) * k / N for k in range(1, N) for _ in range(p - C)]
        want = periodic(p, C, inner, LD(a), LD(b), wrap[i])
        U = nrb.knots[i]
        need(len(U) == len(want), '%s: %d knots on axis %d instead of %d', msg, len(U), i, len(want))
        tol = 2e-15 * (abs(a) + abs(b) + abs(float(want[0])) + abs(float(want[-1])))
        close(U, np.array(want), tol, msg + ': knots of axis %d' % i)
        need((float(U[p]), float(U[-p - 1])) == (a, b), '%s: domain %r', msg, (U[p], U[-p - 1]))
        br, mu = nrb.breaks(i, mults=True)
        need(len(br) == N + 1, '%s: %d elements on axis %d', msg, len(br) - 1, i)
        need(list(mu[1:-1]) == [p - C] * (N - 1), '%s: interior multiplicities %r', msg, list(mu))
        V = iga.KnotVector(N, p, C, a, b, wrap[i])
        close(V, U, tol, msg + ': KnotVector')
    pr = [probe(p, U, {1: 3, 2: 2, 3: 1}[d], {1: 60, 2: 10, 3: 5}[d]) for p, U in zip(nrb.degree, nrb.knots)]
    want = np.zeros(tuple(len(x) for x in pr) + (3,))
    for i, x in enumerate(pr): want[..., i] = np.array(x).reshape([-1 if j == i else 1 for j in range(d)])
    sc = 1e-13 * max(abs(x) for l in lim for x in l) * (1 + 4 * max(deg))
    for got in (ref.of(nrb)(*pr)[..., :3], nrb(*pr)): close(got, want, sc, msg + ': identity map', rec, 'identity')
    # requests out of range or of the wrong length
    i = c['form'] % d; full = dict(degree=list(deg), continuity=list(cont), limits=[list(l) for l in lim], wrap=list(wrap))
    def put(x, v): x = list(x); x[i] = v; return x
    sh = list(c['shape'])
    for s_, k_ in ([sh, dict(degree=put(deg, 0))], [sh, dict(degree=put(deg, -1))],
                   [sh, dict(continuity=put(cont, deg[i]))], [sh, dict(continuity=put(cont, -deg[i] - 1))], [sh, dict(continuity=put(cont, -2 * deg[i] - 1))],
                   [sh, dict(continuity=list(cont) * 2 + [0] * (d == 1))], [sh, dict(degree=list(deg) * 2 + [1])], [sh, dict(wrap=list(wrap) * 2 + [False])],
                   [sh, dict(limits=[0.0, 1.0, 2.0])], [sh, dict(limits=[[0.0, 1.0]] * (d + 2))],
                   [put(sh, 0), {}], [put(sh, -1), {}], [[1] * 4, dict(degree=1, continuity=0, limits=None, wrap=None)], [[], dict(degree=1, continuity=0, limits=None, wrap=None)]):
        raises(lambda: cad.grid(s_, **dict(full, **k_)), "grid(%r, %r)" % (s_, k_)); rec.cls('rejected')
    rec.cls('dim%d' % d); rec.cls('wrapped', any(wrap)); rec.cls('one element', 1 in c['shape']); rec.cls('hundreds of elements', max(c['shape']) > 99); rec.cls('lower continuity', any(C < p - 1 for C, p in zip(cont, deg)))
    rec.nontrivial(any(wrap) or c['cont'] is not None)

register('C14', strategy=cases14, check=check14, regress=[
    {'shape': [4, 4], 'deg': [3, 3], 'cont': [-1, -2], 'lim': None, 'wrap': None, 'form': 0},
    {'shape': [4], 'deg': 3, 'cont': None, 'lim': None, 'wrap': True, 'form': 0}])

# ------------------------------------------------------------ C15
@st.composite
def cases15(draw):
    op = draw(st.sampled_from(['extrude', 'ruled', 'ruled', 'sweep']))
    d = draw(st.sampled_from([1, 1, 2]))
    kw = draw(gen.sizes(d, 4 if d == 1 else 3, 4 if d == 1 else 2))
    c = draw(gen.nurbs(dim=d, **kw)); c['op'] = op
    if op == 'extrude':
        c['how'] = draw(st.integers(0, 3)); c['displ'] = [draw(F8) for _ in range(3)]; c['i'] = draw(st.integers(0, 2)); c['n'] = draw(st.integers(1, 3))
    elif op == 'ruled':
        c['o'] = draw(gen.nurbs(dim=d, dom=draw(st.sampled_from([None, (c['k'][0][c['p'][0]], c['k'][0][-c['p'][0] - 1])])), **kw))
        if draw(st.booleans()): c['rat'] = c['o']['rat'] = 0
    else: c['o'] = draw(gen.nurbs(dim=1, **draw(gen.sizes(1, 3, 3))))
    return c

WS = [0.0, 0.17, 0.5, 0.83, 1.0]

def check15(c, rec):
    nrb = gen.make(c, NURBS); R = gen.ref_of(c); s = snap(nrb); d = nrb.dim
    op = c['op']; rec.cls(op); flags(c, rec)
    if op == 'extrude':
        v = np.zeros(3)
        if c['how'] == 0: arg = c['displ'][:c['n']]; v[:c['n']] = arg; out = cad.extrude(nrb, arg)
        elif c['how'] == 1: v[c['i']] = c['displ'][0]; out = cad.extrude(nrb, c['displ'][0], c['i'] - (3 if c['n'] == 3 else 0))
        elif c['how'] == 2: v[0] = c['displ'][0]; out = cad.extrude(nrb, displ=c['displ'][0])
        else: v[:] = c['displ']; arg = np.array(c['displ']); out = cad.extrude(nrb, arg); same(arg, c['displ'], 'the displacement passed in')
        msg = 'extrude by %r' % v.tolist()
        valid(out, msg, d + 1, 0)
        for i in range(d): same(out.knots[i], nrb.knots[i], msg + ': knots')
        need(tuple(out.degree) == tuple(nrb.degree) + (1,), '%s: last axis', msg); clamped01(out, d, msg)
        pr = probes(nrb)
        P = R(*pr)[..., :3]
        want = P[..., None, :] + np.array(WS, dtype=LD)[:, None] * v
        sc = R.scale()[0] + np.abs(v).max()
        for got in (ref.of(out)(*(pr + [WS]))[..., :3], out(*(pr + [WS]))): close(got, want, 1e-11 * sc, msg, rec, op)
        rec.nontrivial()
    elif op == 'sweep':
        tr = gen.make(c['o'], NURBS); T = gen.ref_of(c['o']); s2 = snap(tr)
        out = cad.sweep(nrb, tr); msg = 'sweep'
        valid(out, msg, d + 1, 0)
        for k, w in zip(out.knots, nrb.knots + tr.knots): same(k, w, msg + ': knots')
        pr = probes(nrb); q = probes(tr)[0]
        want = R(*pr)[..., None, :3] + T(q)[..., :3]
        sc = R.scale()[0] + T.scale()[0]
        for got in (ref.of(out)(*(pr + [q]))[..., :3], out(*(pr + [q]))): close(got, want, 1e-11 * sc, msg, rec, op)
        unchanged(tr, s2, 'sweep changed the trajectory')
        rec.nontrivial(c['rat'] or c['o']['rat'])
    else:
        o = gen.make(c['o'], NURBS); R2 = gen.ref_of(c['o']); s2 = snap(o)
        out = cad.ruled(nrb, o); msg = 'ruled'
        valid(out, msg, d + 1, 0)
        need(out.degree[d] == 1, '%s: last axis', msg); clamped01(out, d, msg)
        pr = [x[:(None, 40, 12)[d]] if len(x) <= (0, 40, 12)[d] else [x[i] for i in np.unique(np.linspace(0, len(x) - 1, (0, 40, 12)[d]).round().astype(int))]
              for x in (probe(p, U, 2) for p, U in zip(out.degree[:d], out.knots[:d]))]
        def at(R0, o0):
            return R0(*[[lin(x, *(dom_of(out, j) + dom_of(o0, j))) for x in pr[j]] for j in range(d)])[..., :3]
        A, B = at(R, nrb), at(R2, o)
        sc = R.scale()[0] + R2.scale()[0]; tol = 1e-8 * sc
        for got in (ref.of(out)(*(pr + [WS]))[..., :3], out(*(pr + [WS]))):
            close(got[..., 0, :], A, tol, 'ruled: first end', rec, 'ends')
            close(got[..., -1, :], B, tol, 'ruled: second end', rec, 'ends')
            E = B - A; L2 = (E * E).sum(-1)
            prev = None
            for k, w in enumerate(WS):
                X = np.asarray(got[..., k, :], dtype=LD)
                t = np.where(L2 > (1e-3 * sc) ** 2, ((X - A) * E).sum(-1) / np.maximum(L2, LD(1e-300)), w)
                need(np.all((t >= -1e-4) & (t <= 1 + 1e-4)), 'ruled: outside the segment at w=%g', w)
                close(X, A + t[..., None] * E if True else X, 10 * tol + np.where(L2 > (1e-3 * sc) ** 2, 0, 1e-3 * sc)[..., None], 'ruled: on the segment, w=%g' % w)
                if prev is not None: need(np.all(t - prev >= -1e-4), 'ruled: runs backwards at w=%g', w)
                prev = t
            if not c['rat'] and not c['o']['rat']:
                want = A[..., None, :] + np.array(WS, dtype=LD)[:, None] * E[..., None, :]
                close(got, want, tol, 'ruled: linear', rec, 'linear')
        unchanged(o, s2, 'ruled changed its second argument')
        rec.nontrivial(tuple(c['p']) != tuple(c['o']['p']) or c['k'] != c['o']['k'])
    unchanged(nrb, s, op + ' changed its argument')

register('C15', strategy=cases15, check=check15, regress=[
    dict({'p': [2], 'k': [[-1, -.5, 0, .5, 1, 1.5, 2]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 3}, op='ruled',
         o={'p': [2], 'k': [[0, 0, 0, .25, 1, 1, 1]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 4})])

# ------------------------------------------------------------ C16
@st.composite
def cases16(draw):
    d = draw(st.sampled_from([1, 1, 2]))
    c = draw(gen.nurbs(dim=d, **draw(gen.sizes(d, 3, 3))))
    c['angle'] = draw(angles())
    c['axis'] = draw(st.one_of(st.none(), st.integers(0, 2),
                     st.sampled_from([[0, 0, -1], [0, 0, 1], [0, 0, 2.5], [1e-8, 0, 1], [0, 1e-6, -1], [-1, 0, 0], [0, -1, 0], [1], [0, 2], [1, 1, 1]]),
                     st.lists(st.integers(-8, 8).map(lambda i: i / 4.0), min_size=3, max_size=3)))
    c['pt'] = draw(st.one_of(F8, st.lists(F8, min_size=1, max_size=3)))
    c['form'] = draw(st.integers(0, 5))
    c['on'] = draw(st.sampled_from([0, 0, 0, 1]))
    if isinstance(c['axis'], list) and draw(st.integers(0, 5)) == 3:
        e = draw(st.sampled_from([1e-9, 1e-13, 1e-60, 1e8, 1e60])); c['axis'] = [t * e for t in c['axis']]        # only its direction counts
    if c['mag'] == 3: c['pt'] = 0.0
    return c

def check16(c, rec):
    ax = c['axis']
    v = np.zeros(3, dtype=LD)
    if ax is None: v[2] = 1
    elif isinstance(ax, int): v[ax] = 1
    else: v[:len(ax)] = ax
    if not np.any(v): return
    v = v / np.sqrt((v * v).sum())
    start, end = arc_range(c['angle'])
    if not 0 < abs(end - start) <= 2 * np.pi: return
    nrb = gen.make(c, NURBS); d = nrb.dim
    o = np.zeros(3); q = np.atleast_1d(c['pt']).astype('d'); o[:len(q)] = q
    if c['on']:
        # part of the section lies on the axis
        A = nrb.array.copy(); flat = A.reshape(-1, A.shape[-1])
        for i in range(0, len(flat), 2): flat[i, :3] = (o + np.asarray(v, dtype='d') * (i - 3.0)) * flat[i, 3]
        nrb = NURBS(nrb.knots, A[..., :4], fields=A[..., 4:] / A[..., 3:4] if A.shape[-1] > 4 else None)
    R = ref.of(nrb)
    s = snap(nrb)
    ang = angle_arg(c['angle'], c['form']); pt = c['pt']; axa = ax
    if c['form'] % 3 == 0 and isinstance(pt, list): pt = np.array(pt)
    if c['form'] % 3 == 1 and isinstance(ax, list): axa = np.array(ax, dtype='d')
    keep = copy.deepcopy((ang, pt, axa))
    out = cad.revolve(nrb, pt, angle=ang) if ax is None else cad.revolve(nrb, pt, axa, ang)
    for a, b in zip((ang, pt, axa), keep):
        if a is not None: need(np.array_equal(np.array(a, dtype=object), np.array(b, dtype=object)), 'revolve changed an argument')
    unchanged(nrb, s, 'revolve changed the section')
    msg = 'revolve about %r through %r by %r' % (ax, c['pt'], c['angle'])
    valid(out, msg, d + 1, 0)
    for i in range(d): same(out.knots[i], nrb.knots[i], msg + ': knots')
    clamped01(out, d, msg)
    pr = [x if len(x) <= (0, 30, 8)[d] else [x[i] for i in np.unique(np.linspace(0, len(x) - 1, (0, 30, 8)[d]).round().astype(int))] for x in probes(nrb)]
    p, U = out.degree[d], [float(u) for u in out.knots[d]]
    br = sorted(set(U[p:len(U) - p])); ws = []
    for x, y in zip(br, br[1:]): ws += [x + (y - x) * k / 5 for k in range(5)]
    ws.append(br[-1])
    P = R(*pr)[..., :3].reshape(-1, 3) - o
    h = P @ v; rho = P - h[:, None] * v; rad = np.sqrt((rho * rho).sum(-1))
    size = float(R.scale()[0] + np.abs(o).max() * 1.0); tol = 1e-10 * (size + 1e-300)
    for got in (ref.of(out)(*(pr + [ws]))[..., :3], out(*(pr + [ws]))):
        X = np.asarray(got, dtype=LD).reshape(len(P), len(ws), 3) - o
        H = X @ v; Q = X - H[..., None] * v; RR = np.sqrt((Q * Q).sum(-1))
        close(H, np.repeat(h[:, None], len(ws), 1), tol, msg + ': height', rec, 'height')
        close(RR, np.repeat(rad[:, None], len(ws), 1), tol, msg + ': distance to the axis', rec, 'radius')
        k = int(np.argmax(rad))
        if rad[k] < 1e-3 * size: continue
        e1 = rho[k] / rad[k]; e2 = np.cross(v, e1)
        phi = np.arctan2(Q[k] @ e2, Q[k] @ e1)
        inc = (np.diff(phi) + LD(np.pi)) % (2 * LD(np.pi)) - LD(np.pi)
        sg = 1 if end > start else -1
        need(np.all(inc * sg >= -1e-6), '%s: the angle runs backwards', msg)
        need(abs(float(inc.sum()) - (end - start)) < 1e-6, '%s: turns by %r instead of %r', msg, float(inc.sum()), end - start)
        # every point is turned by the same angle
        cs, sn = np.cos(phi), np.sin(phi)
        want = (h[:, None, None] * v + cs[None, :, None] * rho[:, None, :] + sn[None, :, None] * np.cross(v, rho)[:, None, :])
        close(X, want, 30 * tol * float(size / rad[k]) if rad[k] < size else 30 * tol, msg + ': turned point', rec, 'turned')
        # the angle at the breaks of the arc, ends included
        for j in range(0, len(ws), 5):
            a = LD(start) + (LD(end) - LD(start)) * (j // 5) / (len(br) - 1)
            want = h[:, None] * v + np.cos(a) * rho + np.sin(a) * np.cross(v, rho)
            close(X[:, j], want, 30 * tol * (1 + abs(start) + abs(end)), msg + ': angle at parameter %g' % ws[j], rec, 'angle')
    flags(c, rec); rec.cls('axis vector', isinstance(ax, list)); rec.cls('negative sweep', end < start); rec.cls('touches the axis', c['on'] == 1)
    rec.nontrivial(isinstance(ax, list) or bool(np.any(o)))

register('C16', strategy=cases16, check=check16, regress=[
    {'p': [1], 'k': [[0, 0, 1, 1]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 3, 'angle': [0.5, -1.0], 'axis': a, 'pt': [1, 2, 3.], 'form': 0, 'on': 0}
    for a in ([0, 0, -1], [0, 0, 1], [1e-8, 0, 1], [0, 1e-5, -1], 0, 1, [1, 1, 1])])

# ------------------------------------------------------------ C17
@st.composite
def cases17(draw):
    cv = [draw(gen.nurbs(dim=1, nf=0, rat=draw(st.sampled_from([0, 0, 1])), mags=False, **draw(gen.sizes(1, 4, 4)))) for _ in range(4)]
    if draw(st.booleans()):
        for x in cv: x['rat'] = 0
    return {'cv': cv, 'corner': draw(st.integers(0, 1 << 20)), 'cw': draw(st.sampled_from([0, 0, 1])),
            'size': draw(st.sampled_from([1.0, 1.0, 1.0, 1000.0, 1e-3])), 'form': draw(st.integers(0, 3))}

def corner_curves(c):
    """Four curves [[left, right], [bottom, top]] that meet at the corners."""
    P = (gen.unit(c['corner'], (2, 2, 3)) * 8 - 4)
    rat = any(x['rat'] for x in c['cv'])
    W = gen.unit(c['corner'] + 5, (2, 2)) + 0.5 if c['cw'] and rat else np.ones((2, 2))
    ends = [(P[0, 0], P[0, 1], W[0, 0], W[0, 1]), (P[1, 0], P[1, 1], W[1, 0], W[1, 1]),
            (P[0, 0], P[1, 0], W[0, 0], W[1, 0]), (P[0, 1], P[1, 1], W[0, 1], W[1, 1])]
    out = []
    for x, (a, b, wa, wb) in zip(c['cv'], ends):
        nrb = gen.make(x, NURBS)
        A = nrb.array.copy()
        # the curve minus the linear interpolant of its ends, plus the wanted one
        p, U = x['p'][0], x['k'][0]
        unclamped = not (gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1))
        lo, hi = float(U[p]), float(U[len(U) - p - 1])
        R = gen.ref_of(x)
        Ha = np.asarray(R.hom([[lo]])[0], dtype='d'); Hb = np.asarray(R.hom([[hi]])[0], dtype='d')
        g = np.array([sum(LD(u) for u in U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)])
        t = ((g - LD(lo)) / (LD(hi) - LD(lo))).astype('d')[:, None]
        Wa = np.append(a * wa, wa); Wb = np.append(b * wb, wb)
        A[:, :4] += (1 - t) * (Wa - Ha) + t * (Wb - Hb)
        if not unclamped: A[0, :4] = Wa; A[-1, :4] = Wb
        A[:, :3] *= c['size']
        out.append((A, x))
    return P * c['size'], W, out

def check17(c, rec):
    P, W, data = corner_curves(c)
    if any(A[:, 3].min() < 0.3 for A, _ in data): return
    rational = any(x['rat'] for x in c['cv'])
    cv = []
    for A, x in data:
        cv.append(NURBS(x['k'], A))
    Rs = [ref.of(n) for n in cv]; snaps = [snap(n) for n in cv]
    arg = [[cv[0], cv[1]], [cv[2], cv[3]]]
    if c['form'] % 2: arg = tuple(tuple(x) for x in arg)
    out = cad.coons(arg)
    msg = 'coons'
    for n, s in zip(cv, snaps): unchanged(n, s, 'coons changed a curve')
    valid(out, msg, 2, 0)
    du, dv = dom_of(out, 0), dom_of(out, 1)
    us = probe(out.degree[0], out.knots[0], 2, 30); vs = probe(out.degree[1], out.knots[1], 2, 30)
    sc = max(float(R.scale()[0]) for R in Rs)
    if rational:
        # the weight function of the patch blends those of the curves: stay away from its zeros
        ss = np.linspace(0, 1, 41)
        wf = [R.hom([[float(lin(t, 0.0, 1.0, *dom_of(n, 0))) for t in ss]])[:, 3].astype('d') for R, n in zip(Rs, cv)]
        s_, t_ = ss[:, None], ss[None, :]
        Wf = (1 - s_) * wf[0][None] + s_ * wf[1][None] + (1 - t_) * wf[2][:, None] + t_ * wf[3][:, None] - (
            (1 - s_) * (1 - t_) * W[0, 0] + s_ * (1 - t_) * W[1, 0] + (1 - s_) * t_ * W[0, 1] + s_ * t_ * W[1, 1])
        if Wf.min() <= 0.1: return
        need(abs(out.weights.max()) < 100 * Wf.max() + 100, 'coons: weights up to %r', out.weights.max())
        sc *= 4 * float(Wf.max() / Wf.min())
        rec.cls('weight function')
    tol = 1e-8 * sc
    def curve(k, ts, dm): return Rs[k](([lin(t, *(dm + dom_of(cv[k], 0))) for t in ts]))[..., :3]
    L, Rr, Bo, To = curve(0, vs, dv), curve(1, vs, dv), curve(2, us, du), curve(3, us, du)
    for S in (lambda u, v: ref.of(out)(u, v)[..., :3], lambda u, v: out(u, v)):
        close(S([du[0]], vs)[0], L, tol, 'coons: left boundary (C[0,0])', rec, 'boundary')
        close(S([du[1]], vs)[0], Rr, tol, 'coons: right boundary (C[0,1])', rec, 'boundary')
        close(S(us, [dv[0]])[:, 0], Bo, tol, 'coons: lower boundary (C[1,0])', rec, 'boundary')
        close(S(us, [dv[1]])[:, 0], To, tol, 'coons: upper boundary (C[1,1])', rec, 'boundary')
    for bd, want, ts in ((out.boundary(0, 0), L, vs), (out.boundary(0, 1), Rr, vs), (out.boundary(1, 0), Bo, us), (out.boundary(1, 1), To, us)):
        close(bd(ts), want, tol, 'coons: boundary()')
    if not any(x['rat'] for x in c['cv']):
        s = np.array([lin(u, *(du + (0.0, 1.0))) for u in us])[:, None, None]; t = np.array([lin(v, *(dv + (0.0, 1.0))) for v in vs])[None, :, None]
        want = ((1 - s) * L[None] + s * Rr[None] + (1 - t) * Bo[:, None] + t * To[:, None]
                - ((1 - s) * (1 - t) * P[0, 0] + s * (1 - t) * P[1, 0] + (1 - s) * t * P[0, 1] + s * t * P[1, 1]))
        close(out(us, vs), want, tol, 'coons: blend', rec, 'blend')
        rec.cls('polynomial')
    else: rec.cls('rational'); rec.cls('weights at the corners', bool(c['cw']))
    rec.cls('different degrees', len({x['p'][0] for x in c['cv']}) > 1)
    rec.cls('unclamped', any(not (gen.is_clamped(x['p'][0], x['k'][0], 0) and gen.is_clamped(x['p'][0], x['k'][0], 1)) for x in c['cv']))
    rec.nontrivial(len({tuple(x['k'][0]) for x in c['cv']}) > 1)

register('C17', strategy=cases17, check=check17)

# ------------------------------------------------------------ C18
@st.composite
def cases18(draw):
    d = draw(st.sampled_from([1, 1, 2, 2, 3]))
    c = draw(gen.nurbs(dim=d, mags=False, rat=draw(st.sampled_from([0, 1])), **draw(gen.sizes(d, 3, 3))))
    c['ax'] = draw(st.integers(0, 2)); c['cut'] = draw(st.integers(1, 63))
    c['smooth'] = draw(st.sampled_from([0, 0, 1, 2])); c['wf'] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    I = st.integers(0, 64)
    op = st.sampled_from(['elevate', 'insert', 'remap', 'unclamp', 'unclamp0', 'unclamp1', 'reverse2'])
    c['m1'] = [[draw(op), draw(I), draw(I), draw(I)] for _ in range(draw(st.integers(0, 3)))]
    c['m2'] = [[draw(op), draw(I), draw(I), draw(I)] for _ in range(draw(st.integers(0, 3)))]
    if any(U[-1] - U[0] < 1e-6 for U in c['k']):
        # beside a domain like [0, 1] the parameters of this one would be lost in rounding
        for m in c['m1'], c['m2']: m[:] = [t for t in m if t[0] != 'remap']
    return c

def vary(nrb, mods, ax):
    """Another description of the same object (other domains, degrees, knots)."""
    d = nrb.dim
    for name, i, j, k in mods:
        a = i % d
        p = nrb.degree[a]; U = [float(u) for u in nrb.knots[a]]; lo, hi = U[p], U[-p - 1]
        if name == 'elevate' and p < 4: nrb.elevate(a, 1)
        elif name == 'insert':
            x = lo + (hi - lo) * (1 + j % 7) / 8.0
            near = min(U, key=lambda u: abs(u - x))
            if abs(near - x) < (hi - lo) / 40: continue
            nrb.insert(a, x, 1)
        elif name == 'remap':
            l0 = [0.0, 1.0, -2.0, 0.1][j % 4]; nrb.remap(a, l0, l0 + [1.0, 2.0, 0.7, 3.0][k % 4])
        elif name.startswith('unclamp') and p > 1:
            g = np.diff(sorted(set(U)))
            if g.max() > 6 * g.min(): continue
            nrb.unclamp(a, {'unclamp': None, 'unclamp0': 0, 'unclamp1': 1}[name], j % p)
            if nrb.weights.min() < 0.1: nrb.clamp(a)
    return nrb

def check18(c, rec):
    big = gen.make(c, NURBS); d = big.dim; ax = c['ax'] % d
    p, U = c['p'][ax], c['k'][ax]; lo, hi = U[p], U[len(U) - p - 1]
    x = lo + (hi - lo) * c['cut'] / 64.0
    near = min(U, key=lambda u: abs(u - x))
    if abs(near - x) < (hi - lo) / 40: x = near
    if not lo < x < hi: return
    n1 = big.slice(ax, None, x); n2 = big.slice(ax, x, None)
    if c['smooth'] != 1:
        A = n2.array.copy(); idx = [slice(None)] * (d + 1); idx[ax] = slice(1, None)
        B = A[tuple(idx)]; B[..., :3] += (gen.unit(c['net'] + 3, B.shape[:-1] + (3,)) - 0.5) * (2.0, 0, [1e-4, 1e-3, 1e-2][c['net'] % 3])[c['smooth']]
        n2 = NURBS(n2.knots, A[..., :4], fields=A[..., 4:] / A[..., 3:4] if A.shape[-1] > 4 else None)
    # the same second part with other homogeneous coordinates
    if c.get('wf'): n2 = NURBS(n2.knots, n2.control * [1, 2.0, 0.3, 7.0][c['wf']], fields=n2.fields)
    n1 = vary(n1, c['m1'], ax); n2 = vary(n2, c['m2'], ax)
    if min(n1.weights.min(), n2.weights.min()) < 0.05: return
    if max(n1.array.size, n2.array.size) > 20000: return
    R1, R2 = ref.of(n1), ref.of(n2); s1, s2 = snap(n1), snap(n2)
    out = cad.join(n1, n2, ax)
    msg = 'join along axis %d' % ax
    unchanged(n1, s1, 'join changed its first argument'); unchanged(n2, s2, 'join changed its second argument')
    valid(out, msg, d, big.array.shape[-1] - 4)
    need(out.degree[ax] == max(n1.degree[ax], n2.degree[ax]), '%s: degree %d', msg, out.degree[ax])
    (a1, b1), (a2, b2) = dom_of(n1, ax), dom_of(n2, ax)
    A_, B_ = dom_of(out, ax)
    L = b1 + (b2 - a2)
    if c['smooth'] == 1 and not c['m1'] and not c['m2'] and len(U) < 40 and min(np.diff(sorted(set(U)))) > 1e-2 * (hi - lo):
        seam = int(np.sum(np.abs(out.knots[ax] - x) <= 1e-9 * (abs(lo) + abs(hi))))
        need(seam == max(1, U.count(x)), '%s: %d knots at the seam of parts of one object with %d knots there', msg, seam, U.count(x))
        rec.cls('rejoined')
    need(A_ == a1 and abs(B_ - L) <= 1e-14 * (abs(b1) + abs(a2) + abs(b2)), '%s: domain [%r,%r] instead of [%r,%r]', msg, A_, B_, a1, L)
    oth = [i for i in range(d) if i != ax]
    pr = [None] * d
    for i in oth:
        pr[i] = probe(out.degree[i], out.knots[i], 1, {1: 20, 2: 9, 3: 5}[d])
    for k, (n, R, (a, b), (A, B)) in enumerate(((n1, R1, (a1, b1), (a1, b1)), (n2, R2, (a2, b2), (b1, B_)))):
        pr[ax] = [t for t in probe(n.degree[ax], n.knots[ax], 3, {1: 40, 2: 12, 3: 6}[d])]
        src, new = [None] * d, [None] * d
        for i in range(d):
            if i == ax:
                src[i] = pr[i]; new[i] = [float(lin(t, a, b, A, B)) for t in pr[i]]
                new[i] = [min(max(t, A), B) for t in new[i]]
            else:
                new[i] = pr[i]; src[i] = [lin(t, *(dom_of(out, i) + dom_of(n, i))) for t in pr[i]]
        want = R(*src); sc = np.maximum(R1.scale(), R2.scale())
        tol = 1e-7 * (sc + 1)
        close(ref.of(out)(*new), want, tol, msg + ': part %d' % (k + 1), rec, 'part')
        close(evaluate(out, new), want, tol, msg + ': part %d (evaluated by the library)' % (k + 1), rec, 'part')
    flags(c, rec); rec.cls('different degrees', n1.degree[ax] != n2.degree[ax]); rec.cls('second domain not at zero', a2 != 0)
    rec.cls('smooth', c['smooth'] == 1); rec.cls('almost smooth', c['smooth'] == 2); rec.cls('fields', c['nf'] > 0)
    rec.cls('weights of the faces differ by a factor', bool(c.get('wf')))
    rec.nontrivial(bool(c['m1'] or c['m2']))

register('C18', strategy=cases18, check=check18, regress=[
    {'p': [2], 'k': [[0, 0, 0, 1, 2, 2, 2]], 'rat': 1, 'nf': 1, 'mag': 0, 'net': 3, 'ax': 0, 'cut': 32, 'smooth': 0, 'm1': [], 'm2': [['remap', 0, 1, 2]]},
    {'p': [2, 2], 'k': [[0, 0, 0, 1, 2, 2, 2], [-1, -.5, 0, .5, 1, 1.5, 2]], 'rat': 1, 'nf': 1, 'mag': 0, 'net': 3, 'ax': 0, 'cut': 32, 'smooth': 0, 'm1': [['elevate', 0, 0, 0]], 'm2': [['elevate', 1, 0, 0], ['unclamp', 0, 1, 0]]}])

# ------------------------------------------------------------ C19
@st.composite
def cases19(draw):
    d = draw(st.sampled_from([1, 1, 2, 3]))
    c = draw(gen.nurbs(dim=d, **draw(gen.sizes(d, (0, 4, 3, 2)[d], (0, 4, 2, 2)[d]))))
    def per_axis(f): return draw(st.sampled_from(['none', 'scalar', 'list'])), [f(i) for i in range(d)]
    spans = [len(set(U[p:len(U) - p])) - 1 for p, U in zip(c['p'], c['k'])]
    mx = (0, 6, 3, 2)[d]
    fac = []
    for i in range(d):
        k = draw(st.integers(0, 3))
        if k == 0: fac.append(None)
        elif k == 1: fac.append(draw(st.integers(1, mx)))
        else: fac.append([draw(st.integers(1, mx)) for _ in range(spans[i])])
    c['fac'] = draw(st.sampled_from([None, draw(st.integers(1, mx)), fac, fac, fac]))
    deg = [draw(st.sampled_from([None, 1, 2, 3, 4][:6 - d])) for _ in range(d)]
    c['deg'] = draw(st.sampled_from([None, draw(st.integers(1, 5 - d)), deg, deg]))
    want = [max(p, (c['deg'] if isinstance(c['deg'], int) else (deg[i] if c['deg'] is not None else 0)) or 0) for i, p in enumerate(c['p'])]
    cont = [draw(st.one_of(st.none(), st.integers(-q, q - 1))) for q in want]
    c['cont'] = draw(st.sampled_from([None, draw(st.integers(-min(want), min(want) - 1)), cont, cont]))
    c['form'] = draw(st.integers(0, 5))
    if d == 1 and draw(st.integers(0, 9)) == 0:
        # many parts
        c['fac'] = [[draw(st.integers(1, 120)) for _ in range(spans[0])] if draw(st.booleans()) else draw(st.integers(30, 200))]
    return c

def check19(c, rec):
    nrb = gen.make(c, NURBS); R = gen.ref_of(c); s = snap(nrb); d = nrb.dim
    def ax(v): return [None] * d if v is None else [v] * d if isinstance(v, int) else v
    fac, deg, cont = ax(c['fac']), ax(c['deg']), ax(c['cont'])
    def form(v):
        if isinstance(v, list):
            if c['form'] % 3 == 0: return tuple(v)
            if c['form'] % 3 == 1:
                a = np.empty(d, dtype=object)
                for i, x in enumerate(v): a[i] = np.array(x, dtype='i') if isinstance(x, list) and c['form'] == 1 else x
                return a
        return copy.deepcopy(v)
    args = [form(c['fac']), form(c['deg']), form(c['cont'])]
    if isinstance(args[0], (tuple, list)) and d == 1 and isinstance(args[0][0], list) and len(args[0][0]) == 1: pass
    keep = copy.deepcopy(args)
    out = cad.refine(nrb, *args) if c['form'] % 2 else cad.refine(nrb, factor=args[0], degree=args[1], continuity=args[2])
    msg = 'refine(factor=%r, degree=%r, continuity=%r)' % (c['fac'], c['deg'], c['cont'])
    for a, b in zip(args, keep):
        if isinstance(a, np.ndarray):
            need(all(np.array_equal(x, y) and type(x) is type(y) for x, y in zip(a, b)), '%s changed an argument: %r, was %r', msg, a, b)
        else: need(a == b, '%s changed an argument', msg)
    need(out is not nrb, '%s returns its argument', msg)
    unchanged(nrb, s, msg + ' changed the object')
    valid(out, msg, d, R.nf)
    for i in range(d):
        p, U = c['p'][i], c['k'][i]
        q = max(p, deg[i] or 0); t = q - p
        need(out.degree[i] == q, '%s: degree %d of axis %d instead of %d', msg, out.degree[i], i, q)
        C = cont[i]; C = q - 1 if C is None else C + q if C < 0 else C
        br, mu = gen.mults(p, U)
        ns = len(br) - 1
        f = fac[i]; f = [1] * ns if f is None else [f] * ns if isinstance(f, int) else f
        want, wm = [], []
        for k in range(ns):
            for r in range(f[k]):
                want.append(LD(br[k]) + (LD(br[k + 1]) - LD(br[k])) * r / f[k])
                if r == 0: wm.append(max(mu[k] + t, q - C) if k else q + 1)
                else: wm.append(q - C)
        want.append(LD(br[-1])); wm.append(q + 1)
        V = out.knots[i]
        full = [w for w, m in zip(want, wm) for _ in range(m)]
        need(len(V) == len(full), '%s: axis %d has knots %r instead of %r', msg, i, V.tolist(), [float(x) for x in full])
        close(V, np.array(full), 1e-14 * (abs(br[0]) + abs(br[-1])) * 2, '%s: knots of axis %d' % (msg, i))
        vb, vm = np.unique(V, return_counts=True)
        need(list(vm) == wm, '%s: multiplicities %r instead of %r on axis %d', msg, list(vm), wm, i)
        need(all(any(b == v for v in vb) for b in br), '%s: a break of axis %d moved', msg, i)
    pr = gen.grid_for(c['p'], c['k'])
    same_map(out, R, msg, pr, rtol=1e-8, rec=rec)
    flags(c, rec); rec.cls('factors per span', isinstance(c['fac'], list) and any(isinstance(f, list) for f in c['fac']))
    rec.cls('elevated', any(q > p for q, p in zip(out.degree, c['p']))); rec.cls('lower continuity', c['cont'] is not None)
    rec.nontrivial(any(x is not None for x in fac + deg + cont))

register('C19', strategy=cases19, check=check19)
