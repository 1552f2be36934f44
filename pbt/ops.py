"""Table of operations on valid objects, shared by C11, C27 and C28.

Every entry is f(x, nrb, other) -> list of results (NURBS, arrays, nested lists).
x.arg(value) registers a mutable argument so that its contents can be compared later.
All choices come from x.q, a list of drawn integers.
"""
import os
import numpy as np
import gen
from sut import NURBS, transform, cad, bsp, iga

class Ctx(object):
    def __init__(self, q, form, scratch=None):
        self.q = q; self.form = form; self.args = []; self.scratch = scratch; self.i = 0
    def n(self, k, hi):
        """The k-th drawn integer, modulo hi."""
        return self.q[k % len(self.q)] % hi
    def arg(self, v, dtype='d', keep=False):
        """A value as a list, a plain, strided or Fortran ordered array; registered."""
        f = (self.form + self.i) % 4; self.i += 1
        a = np.array(v, dtype=dtype)
        if keep or f == 1 or a.ndim == 0: r = a
        elif f == 0: r = a.tolist()
        elif f == 2:
            big = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype); big[::2] = a; r = big[::2]
        else: r = np.asfortranarray(a)
        self.args.append((r, np.array(r, copy=True), type(r)))
        return r
    def lst(self, v):
        """A (nested) Python list, registered as such."""
        import copy
        self.args.append((v, copy.deepcopy(v), list)); return v
    def changed(self):
        for r, s, t in self.args:
            if t is list and isinstance(s, list):
                if r != s: return (r, s)
            elif np.asarray(r).shape != s.shape or np.asarray(r).dtype != s.dtype or not np.array_equal(np.asarray(r), s): return (r, s)
        return None

def dom(nrb, i):
    p, U = nrb.degree[i], nrb.knots[i]
    return float(U[p]), float(U[-p - 1])

def inner(nrb, i):
    p, U = nrb.degree[i], [float(x) for x in nrb.knots[i]]
    a, b = dom(nrb, i)
    return sorted(set(u for u in U if a < u < b))

def at(nrb, i, k):
    """A parameter of axis i: end, interior knot or other."""
    a, b = dom(nrb, i)
    inn = inner(nrb, i)
    if k % 7 == 0: return a
    if k % 7 == 1: return b
    if k % 7 == 2 and inn: return inn[k // 7 % len(inn)]
    return a + (b - a) * (1 + k % 31) / 32.0 if (k % 31) != 31 else b

def inside(nrb, i, k):
    """A parameter where a knot can be inserted, or None."""
    inn = inner(nrb, i); U = nrb.knots[i].tolist(); p = nrb.degree[i]
    a, b = dom(nrb, i)
    if k % 3 == 0 and inn: x = inn[k // 3 % len(inn)]
    else: x = a + (b - a) * (1 + k % 31) / 33.0
    if not a < x < b: return None
    if any(0 < abs(x - u) < (b - a) * 1e-3 for u in U): return None
    return x if U.count(x) < p else None

def pars(x, nrb, cap=5):
    return [x.arg([at(nrb, i, x.n(i + j, 997) + 5 * j) for j in range(1 + x.n(i + 3, cap))]) for i in range(nrb.dim)]

def shaped(x, nrb, k):
    shp = tuple(nrb.shape)
    return x.arg(gen.unit(x.n(5, 999983), shp + (k,) if k else shp) * 4 - 2)

# ---------------------------------------------------------------- queries
def q_eval(x, n, o): return [n(*pars(x, n))]
def q_scalar(x, n, o): return [n(*[at(n, i, x.n(i, 997)) for i in range(n.dim)])]
def q_default(x, n, o):
    g = n.greville()
    if not all(dom(n, i)[0] <= g[i].min() and g[i].max() <= dom(n, i)[1] for i in range(n.dim)): return g
    return g + [n()]
def q_fields(x, n, o):
    if n.fields is None: return [n(*pars(x, n))]
    return list(n(*pars(x, n), **dict(fields=True))) + [n.evaluate(None, *pars(x, n))]
def q_user(x, n, o):
    F = shaped(x, n, x.n(6, 3))
    return list(n(*pars(x, n), **dict(fields=F))) + [n.evaluate(F, *pars(x, n))]
def q_gradient(x, n, o): return [n.gradient(shaped(x, n, x.n(6, 3)) if x.n(4, 2) else None, *pars(x, n, 4))]
def q_hessian(x, n, o): return [n.hessian(shaped(x, n, x.n(6, 3)) if x.n(4, 2) else None, *pars(x, n, 3))]
def q_derivative(x, n, o):
    return [n.derivative(1 + x.n(7, 4), shaped(x, n, x.n(6, 3)) if x.n(4, 2) else None, *pars(x, n, 2))]
def q_structure(x, n, o):
    out = []
    for f in ('breaks', 'spans', 'greville', 'lagrange', 'lobatto'):
        if f == 'lobatto' and max(n.degree) > 9: continue
        out += list(getattr(n, f)())
    for u, s in n.breaks(mults=True): out += [u, s]
    x.views = [n.weights, n.control]
    return out + [n.points] + x.views + ([n.fields] if n.fields is not None else [])

# ---------------------------------------------------------------- editing (change n)
def ax(x, n): return x.n(0, n.dim)
def e_insert(x, n, o):
    i = ax(x, n); t = inside(n, i, x.n(1, 997))
    if t is None: return []
    room = n.degree[i] - n.knots[i].tolist().count(t)
    n.insert(i, t, 1 + x.n(2, room)); return [n]
def e_refine(x, n, o):
    i = ax(x, n); ts = []
    for k in range(1 + x.n(2, 3)):
        t = inside(n, i, x.n(1, 997) + 11 * k)
        if t is None or n.knots[i].tolist().count(t) + ts.count(t) >= n.degree[i]: continue
        if any(t != s and abs(t - s) < 1e-3 * (dom(n, i)[1] - dom(n, i)[0]) for s in ts): continue
        ts.append(t)
    if not ts: return []
    n.refine(i, x.arg(ts[::-1])); return [n]
def e_remove(x, n, o):
    i = ax(x, n); inn = inner(n, i)
    if x.n(4, 4) == 0: inn = list(dom(n, i))
    if not inn: return []
    n.remove(i, inn[x.n(1, len(inn))], [1, None, 2][x.n(2, 3)], [1e-9, 1.0, 1e6][x.n(3, 3)]); return [n]
def e_insrem(x, n, o):
    i = ax(x, n); t = inside(n, i, x.n(1, 997))
    if t is None: return []
    n.insert(i, t, 1); n.remove(i, t, 1, 1e-6); return [n]
def e_elevate(x, n, o): n.elevate(ax(x, n), x.n(1, 3)); return [n]
def e_clamp(x, n, o): n.clamp(ax(x, n), (None, 0, 1)[x.n(1, 3)]); return [n]
def e_unclamp(x, n, o):
    i = ax(x, n); n.unclamp(i, (None, 0, 1)[x.n(1, 3)], None if x.n(3, 2) else x.n(2, n.degree[i])); return [n]
def e_reverse(x, n, o): n.reverse(*([] if x.n(1, 3) == 0 else [ax(x, n)])); return [n]
def e_transpose(x, n, o): n.transpose(x.lst([[0], [1, 0], [2, 0, 1]][n.dim - 1]) if x.n(1, 2) else None); return [n]
def e_swap(x, n, o): n.swap(ax(x, n), x.n(1, n.dim)); return [n]
def e_remap(x, n, o): n.remap(ax(x, n), -1.0 + x.n(1, 3), 3.0 + x.n(2, 4)); return [n]
def e_translate(x, n, o): n.translate(x.arg([1.5, -2.0, 0.25][:1 + x.n(1, 3)])); return [n]
def e_scale(x, n, o): n.scale(x.arg([1.5, -2.0, 0.25][:1 + x.n(1, 3)])); return [n]
def e_rotate(x, n, o): n.rotate(0.1 + x.n(2, 60) / 10.0, x.arg([1.5, -2.0, 0.25])); return [n]
def e_matrix(x, n, o):
    M = np.eye(4); M[:3] += gen.unit(x.n(1, 999983), (3, 4)) * 0.5
    M = x.arg(M)
    T = transform(M)
    T.compose(x.arg(np.eye(3) * 2)).translate(x.arg([1, 2])).scale(x.arg([1, 2, 3])).rotate(1.0, x.arg([1, 1, 0]))
    C = T.clone(); C.translate(3); D = T.copy(); D.matrix[0] = 7
    n.transform(T if x.n(2, 2) else M)
    return [n, T.matrix, T.inverse().matrix]

# ---------------------------------------------------------------- new objects
def c_slice(x, n, o):
    i = ax(x, n); a, b = dom(n, i); u, v = at(n, i, x.n(1, 997)), at(n, i, x.n(2, 997))
    u, v = min(u, v), max(u, v)
    if not v - u > (b - a) / 50: u, v = a, b
    inn = inner(n, i)
    if any(0 < abs(t - s) < 1e-3 * (b - a) for t in (u, v) for s in n.knots[i].tolist()): u, v = a, b
    return [n.slice(i, u, v)]
def c_extract(x, n, o): i = ax(x, n); return [n.extract(i, at(n, i, x.n(1, 997)))]
def c_boundary(x, n, o): return [n.boundary(ax(x, n), x.n(1, 2))]
def c_copy(x, n, o): return [n.copy()]
def c_clone(x, n, o): return [n.clone()]
def c_construct(x, n, o):
    ks = [x.arg(k) for k in n.knots]
    form = x.n(1, 4)
    F = shaped(x, n, x.n(6, 3)) if x.n(2, 2) else None
    if form == 0: return [NURBS(ks, x.arg(n.control), F)]
    if form == 1: return [NURBS(ks, x.arg(n.points[..., :2 + x.n(3, 2)]), F, x.arg(n.weights))]
    if form == 2: return [NURBS(ks, (x.arg(n.points), x.arg(n.weights)), F)]
    return [NURBS(ks, x.arg(n.points[..., :2 + x.n(3, 2)]), F)]
def c_identity(x, n, o):
    # the degree is read off the first knots, so only knots that are clamped there determine it
    ks = []
    for p, U in zip(n.degree, n.knots):
        a, b = U[p], U[-p - 1]
        ks.append(np.concatenate([[a] * (p + 1), U[(U > a) & (U < b)], [b] * (p + 1)]) if U[0] != a else U)
    return [NURBS([x.arg(k) for k in ks])]

# ---------------------------------------------------------------- cad
def k_line(x, n, o): return [cad.line(x.arg([1, 2, 3][:1 + x.n(1, 3)]), x.arg([4, -2, 1][:1 + x.n(2, 3)]))]
def k_circle(x, n, o):
    return [cad.circle(0.5 + x.n(1, 9), x.arg([1, 2, 3][:1 + x.n(2, 3)]) if x.n(3, 2) else None,
                       [None, 1.0, -2.5, x.lst([0.5, 0.7 + x.n(4, 50) / 10.0]), (3.0, -2.0)][x.n(5, 5)])]
def k_patch(x, n, o):
    k = 1 + x.n(1, 3)
    P = x.arg(gen.unit(x.n(2, 999983), (2,) * k + (3,)) * 3)
    return [(cad.linear, cad.bilinear, cad.trilinear)[k - 1](P if x.n(3, 4) else None)]
def k_grid(x, n, o):
    d = 1 + x.n(1, 3); p = [1 + x.n(2 + i, 3) for i in range(d)]
    return [cad.grid(x.arg([1 + x.n(i + 5, 4) for i in range(d)], 'i'), x.arg(p, 'i'),
                     x.arg([-1 if x.n(i + 1, 2) else x.n(i, p[i]) for i in range(d)], 'i') if x.n(6, 3) else None,
                     x.arg([[0.0, 1.0 + i] for i in range(d)]) if x.n(7, 2) else x.arg([-1.0, 2.5]),
                     x.arg([bool(x.n(i + 2, 2)) for i in range(d)], '?'))]
def k_compat(x, n, o):
    if x.n(5, 4) == 0: return list(cad.compat(n)) if x.n(1, 2) else list(cad.compat([n], axes=0))
    third = n.clone().translate(1) if x.n(1, 2) else None
    sel = x.lst(sorted(set([ax(x, n), x.n(2, n.dim)]))) if x.n(3, 2) else None
    obj = [n, o] + ([third] if third is not None else [])
    return list(cad.compat(*obj, **({} if sel is None else dict(axes=sel))))
def k_extrude(x, n, o):
    if n.dim > 2: return []
    return [cad.extrude(n, x.arg([1, 2, 3])) if x.n(1, 2) else cad.extrude(n, 1.5, x.n(2, 3))]
def k_revolve(x, n, o):
    if n.dim > 2: return []
    return [cad.revolve(n, x.arg([1, 2, 3][:1 + x.n(1, 3)]), x.arg([1, -2, 0.5]) if x.n(2, 2) else x.n(3, 3),
                        [None, 1.0, x.lst([0.5, 0.7 + x.n(4, 50) / 10.0]), (3.0, -2.0)][x.n(5, 4)])]
def k_ruled(x, n, o): return [cad.ruled(n, o)] if n.dim <= 2 else []
def k_sweep(x, n, o):
    if n.dim > 2: return []
    t = NURBS([o.knots[0]], o.points.reshape(o.shape[0], -1, 3)[:, 0], weights=o.weights.reshape(o.shape[0], -1)[:, 0])
    return [cad.sweep(n, t)]
def k_coons(x, n, o):
    if n.dim != 2: return []
    m = n.copy()
    for i in range(2): m.clamp(i)
    c = [[m.boundary(0, 0), m.boundary(0, 1)], [m.boundary(1, 0), m.boundary(1, 1)]]
    s = [[(q.array.copy(), [k.copy() for k in q.knots]) for q in r] for r in c]
    r = [cad.coons(c)]
    for a, b in zip(c, s):
        for q, t in zip(a, b):
            if not np.array_equal(q.array, t[0]) or not all(np.array_equal(y, z) for y, z in zip(q.knots, t[1])):
                raise ValueError('coons() changed a boundary curve')
    return r
def k_join(x, n, o):
    i = ax(x, n)
    m = n.copy().reverse(i)
    if x.n(1, 2): m.elevate(i, 1)
    s = m.array.copy(), [k.copy() for k in m.knots]
    r = [cad.join(n, m, i)]
    if not np.array_equal(m.array, s[0]) or not all(np.array_equal(y, z) for y, z in zip(m.knots, s[1])):
        raise ValueError('join() changed its second argument')
    return r
def k_refine(x, n, o):
    d = n.dim
    fac = [1 + x.n(i + 1, 3) for i in range(d)]
    if x.n(4, 3) == 0: fac = [[1 + x.n(i + j, 3) for j in range(len(n.breaks(i)) - 1)] for i in range(d)]
    return [cad.refine(n, x.lst(fac), x.lst([q + x.n(i + 3, 2) for i, q in enumerate(n.degree)]) if x.n(5, 2) else None,
                       x.lst([-1] * d) if x.n(6, 2) else None)]

# ---------------------------------------------------------------- kernels
def b_basis(x, n, o):
    i = ax(x, n); p = n.degree[i]; U = x.arg(n.knots[i], keep=True); t = at(n, i, x.n(1, 997))
    k = bsp.FindSpan(p, U, t)
    return [k, bsp.FindMult(p, U, t, k), list(bsp.FindSpanMult(p, U, t)), bsp.EvalBasisFuns(p, U, t),
            bsp.EvalBasisFunsDers(p, U, t, x.n(2, p + 1)), bsp.Greville(p, U), bsp.SpanIndex(p, U)]
def b_data(x, n, o):
    i = ax(x, n); p = n.degree[i]; U = x.arg(n.knots[i], keep=True)
    return list(iga.BasisData(p, U, x.n(1, p + 1), 1 + x.n(2, 10)))
def b_col(x, n, o):
    i = ax(x, n); p = n.degree[i]; U = x.arg(n.knots[i], keep=True)
    X = x.arg([at(n, i, x.n(1, 997) + 3 * j) for j in range(1 + x.n(3, 5))], keep=True)
    return list(iga.BasisDataCol(p, U, X, x.n(2, p + 1)))
def b_rules(x, n, o):
    return list(iga.GaussLegendreRule(1 + x.n(1, 10))) + list(iga.GaussLobattoRule(2 + x.n(2, 9)))
def b_knots(x, n, o):
    p = 1 + x.n(1, 5); return [iga.KnotVector(1 + x.n(2, 6), p, x.n(3, p), -1.0, 2.5, x.n(4, 2))]
def b_edit(x, n, o):
    i = ax(x, n); p = n.degree[i]; U = x.arg(n.knots[i], keep=True)
    A = np.moveaxis(n.array, i, 0)
    Pw = x.arg(np.ascontiguousarray(A).reshape(A.shape[0], -1), keep=True)
    t = inside(n, i, x.n(1, 997)); out = []
    if t is not None: out += list(bsp.InsertKnot(p, U, Pw, t, 1)) + list(bsp.RefineKnotVector(p, U, Pw, x.arg([t], keep=True)))
    out += list(bsp.Clamp(p, U, Pw, 1, 1))
    out += list(bsp.Unclamp(p, U, Pw, x.n(2, p), 1, 1)) if gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1) else []
    if gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1): out += list(bsp.DegreeElevate(p, U, Pw, 1))
    return out + [bsp.Extract(p, U, Pw, at(n, i, x.n(3, 997)))]

QUERIES = [q_eval, q_scalar, q_default, q_fields, q_user, q_gradient, q_hessian, q_derivative, q_structure]
EDITS = [e_insert, e_refine, e_remove, e_insrem, e_elevate, e_clamp, e_unclamp, e_reverse, e_transpose, e_swap, e_remap,
         e_translate, e_scale, e_rotate, e_matrix]
MAKES = [c_slice, c_extract, c_boundary, c_copy, c_clone, c_construct, c_identity]
CAD = [k_line, k_circle, k_patch, k_grid, k_compat, k_extrude, k_revolve, k_ruled, k_sweep, k_coons, k_join, k_refine]
KERNELS = [b_basis, b_data, b_col, b_rules, b_knots, b_edit]
ALL = QUERIES + EDITS + MAKES + CAD + KERNELS

def flat(r, out=None):
    """All arrays in a result."""
    if out is None: out = []
    if isinstance(r, NURBS):
        out.append(np.asarray(r.array)); out.extend(np.asarray(k) for k in r.knots)
    elif isinstance(r, (list, tuple)):
        for e in r: flat(e, out)
    elif r is None: pass
    else: out.append(np.asarray(r))
    return out
