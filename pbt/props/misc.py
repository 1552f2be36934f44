"""C09 transforms, C11 no side effects, C27 memory, C28 threads, C29 construction."""
import os, sys, shutil, tempfile, threading
import numpy as np
from hypcompat import st
import gen, ref, ops
from core import register, need, close, same, raises, Violation, finite
from sut import spoil, NURBS, transform, valid, snap, unchanged, same_map, evaluate, bsp

LD = np.longdouble

# ------------------------------------------------------------ C09
T9 = ['translate', 'move', 'scale', 'rotate', 'rotate', 'matrix', 'compose', 'invert', 'copy', 'clone', 'inverse']

@st.composite
def cases09(draw):
    c = draw(gen.nurbs(mags=False))
    V = st.integers(-24, 24)
    c['ops'] = [[draw(st.sampled_from(T9)), draw(st.integers(0, 11)), [draw(V), draw(V), draw(V)], draw(st.integers(0, 1 << 16))]
                for _ in range(draw(st.integers(1, 6)))]
    c['direct'] = draw(st.booleans())
    return c

def elementary(op):
    """(method name, arguments, matrix) of a step; None for the ones without a matrix."""
    name, k, v, s = op
    v = [t / 8.0 for t in v]
    E = np.eye(4, dtype=LD)
    form = k % 4
    tiny = s // 64 % 5 == 0 and (1e-3, 1e-6, 1e-7, 1e-9)[s // 320 % 4]       # close to the identity
    if tiny and name in ('translate', 'move'): v = [t * tiny for t in v]
    if name in ('translate', 'move'):
        if form == 0: E[0, 3] = v[0]; return name, (v[0],), E
        if form == 1: E[s % 3, 3] = v[0]; return name, (v[0] if s // 6 % 2 else np.array([v[0]]), s % 3 - 3 * (s // 3 % 2)), E
        w = v[:1 + s % 3]
        E[:len(w), 3] = w
        return name, (w if form == 2 else np.array(w),), E
    if name == 'scale':
        v = [t if abs(t) > 0.2 else 1.5 for t in v] if not tiny else [1 + t * tiny for t in v]
        if form == 0:
            E[:3, :3] *= v[0]; return name, (v[0],), E
        if form == 1: E[s % 3, s % 3] = v[0]; return name, (v[0] if s // 6 % 2 else np.array([v[0]]), s % 3 - 3 * (s // 3 % 2)), E
        w = v[:1 + s % 3]
        for i, t in enumerate(w): E[i, i] = t
        return name, (w if form == 2 else tuple(w),), E
    if name == 'rotate':
        th = [v[0] * 2, np.pi / 2, -np.pi / 2, np.pi, 2 * np.pi, 0.0, v[0], v[0] / 64, v[0] * 1e-7, v[0] * 1e-11, np.pi + v[0] * 1e-8, v[0] * 1e3][k % 12]
        if s % 2 == 0:
            a = (s // 2) % 3; u = np.eye(3, dtype=LD)[a]
            neg = (s // 6) % 2
            arg = (th,) if a == 2 and (s // 12) % 2 else (th, a - 3 * neg)
        else:
            ax = [t * 0.5 for t in v[::-1]]
            n = 1 + (s // 2) % 3
            ax = ax[:n]
            if not any(abs(t) > 1e-9 for t in ax): ax = [0.0, 0.0, -2.0]
            if s // 16 % 6 == 5: ax = [t * (1e-9, 1e-13, 1e-60, 1e8, 1e60)[s // 96 % 5] for t in ax]       # only its direction counts
            u = np.zeros(3, dtype=LD); u[:len(ax)] = ax
            u = u / np.sqrt((u * u).sum())
            arg = (th, np.array(ax) if s // 8 % 2 else ax)
        c, sn = np.cos(LD(th)), np.sin(LD(th))
        X = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]], dtype=LD)
        E[:3, :3] = c * np.eye(3) + sn * X + (1 - c) * np.outer(u, u)
        return name, arg, E
    if name in ('matrix', 'compose'):
        B = np.eye(4)
        B[:3, :3] += (gen.unit(s, (3, 3)) * 1.5 - 0.75) * (tiny or 1)
        if form != 3: B[:3, 3] = v
        E = B.astype(LD)
        return name, (B,), E
    return name, (), None

def check09(c, rec):
    R = gen.ref_of(c)
    nrb = gen.make(c, NURBS); s0 = snap(nrb); src = nrb
    nrb = nrb.clone()
    T = transform()
    M = np.eye(4, dtype=LD); err = np.zeros((4, 4), dtype=LD)
    keep = []; n = 0; kinds = set()
    for i, op in enumerate(c['ops']):
        name, arg, E = elementary(op)
        if name in ('copy', 'clone', 'inverse', 'invert'):
            old = np.array(T.matrix)
            if name in ('inverse', 'invert'):
                s = np.linalg.svd(np.asarray(M[:3, :3], dtype='d'), compute_uv=False)
                if not s[-1] > 1e-2 * s[0] or not 1e-2 < s[-1] or not s[0] < 1e2: continue
                Mi = np.eye(4, dtype=LD)
                Mi[:3, :3] = ldinv(M[:3, :3]); Mi[:3, 3] = -Mi[:3, :3] @ M[:3, 3]
                ei = np.abs(Mi) @ (err + 1e-14 * np.abs(M)) @ np.abs(Mi)
                P = T.inverse() if name == 'inverse' else None
                if P is None: T.invert(); P = T
                close(P.matrix, Mi, 8 * ei + 1e-15 * (1 + np.abs(Mi).max()), 'inverse', rec, 'inverse')
                if name == 'inverse': same(T.matrix, old, 'inverse() changed the transform')
                else:
                    M, err = Mi, 8 * ei + 1e-15 * (1 + np.abs(Mi).max()); kinds.add(name)
            else:
                N = getattr(T, name)()
                need(N is not T, '%s() returned the object itself', name)
                same(N.matrix, old, name)
                keep.append((T, old)); T = N
            continue
        n += 1; kinds.add(name)
        if name == 'matrix':
            k = op[1] % 3
            if k == 0: T.compose(arg[0])
            elif k == 1: T.compose(transform(arg[0]))
            else: T.compose(transform(transform(arg[0])))
        elif name == 'compose':
            if op[1] % 2:
                B = arg[0][:3, :3]; E = np.eye(4, dtype=LD); E[:3, :3] = B; T.compose(B if op[3] % 2 else B.tolist())
            else: T.compose(arg[0].tolist() if op[3] % 2 else arg[0])
        else:
            r = getattr(T, name)(*arg)
            need(r is T, '%s does not return the transform', name)
        err = np.abs(E) @ err + 4e-15 * ((np.abs(E) + (0.1 if name == 'rotate' else 0)) @ np.abs(M))
        M = E @ M
        close(T.matrix, M, err + 1e-300, 'matrix after %s' % ', '.join(o[0] for o in c['ops'][:i + 1]), rec, 'matrix')
        for o, m in keep: same(o.matrix, m, 'the transform a copy or clone was made of')
    # nearly rigid motions
    ep = 10.0 ** -(3 + c['net'] // 7 % 9); th = float(gen.unit(c['net'] + 8, (1,))[0]) * 6 * (c['net'] % 3 > 0)
    G = np.eye(3) + (gen.unit(c['net'] + 9, (3, 3)) - 0.5) * ep
    G = np.array([[np.cos(th), -np.sin(th), 0], [np.sin(th), np.cos(th), 0], [0, 0, 1]]) @ G
    B = np.eye(4); B[:3, :3] = G; B[:3, 3] = (gen.unit(c['net'] + 10, (3,)) - 0.5) * 4
    Bi = np.eye(4, dtype=LD); Bi[:3, :3] = ldinv(B[:3, :3].astype(LD)); Bi[:3, 3] = -Bi[:3, :3] @ B[:3, 3]
    A = transform(B); I = A.inverse()
    close(I.matrix, Bi, 2e-14, 'inverse of a nearly rigid motion (%g)' % ep)
    A.invert(); close(A.matrix, Bi, 2e-14, 'invert() of a nearly rigid motion (%g)' % ep)
    # very different scales along the axes
    sv = 10.0 ** np.round(gen.unit(c['net'] + 5, (3,)) * 18 - 9); tv = gen.unit(c['net'] + 6, (3,)) * 4 - 2
    A = transform().scale(sv).translate(tv); I = A.inverse()
    Mi = np.diag(np.append(1 / sv, 1.0)); Mi[:3, 3] = -tv / sv
    close(I.matrix, Mi, 1e-9 * (np.abs(Mi) + np.diag(np.abs(Mi).max(axis=1))), 'inverse of scale(%r) and translate(%r)' % (sv.tolist(), tv.tolist()))
    # action on homogeneous points
    X = gen.unit(c['net'], (3, 2, 4)) * 4 - 2
    close(T(X), X.astype(LD) @ M.T, np.abs(X) @ (err + 1e-14 * np.abs(M)).T + 1e-300, 'transform applied to points', rec, 'points')
    same(np.asarray(T), T.matrix, 'the transform as an array')
    if c['direct']:
        # the same steps directly on the object
        for op in c['ops']:
            name, arg, E = elementary(op)
            if E is None: continue
            if name == 'matrix': nrb.transform(arg[0] if op[1] % 2 else transform(arg[0]))
            elif name == 'compose':
                if op[1] % 2: B = np.eye(4); B[:3, :3] = arg[0][:3, :3]; nrb.transform(B)
                else: nrb.transform(arg[0].tolist() if op[3] % 2 else arg[0])
            else: getattr(nrb, name)(*arg)
        if any(o[0] == 'invert' for o in c['ops']): M = direct_matrix(c['ops'])
    else:
        nrb.transform(T if c['net'] % 2 else T.matrix)
    done09(c, rec, nrb, src, s0, R, M, keep)
    rec.cls('direct', c['direct'])
    for k in kinds: rec.cls(k)
    rec.nontrivial(n >= 2 and c['rat'] > 0)

def ldinv(A):
    """Inverse of a 3x3 matrix in extended precision."""
    a = A
    C = np.array([[a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1], a[0, 2] * a[2, 1] - a[0, 1] * a[2, 2], a[0, 1] * a[1, 2] - a[0, 2] * a[1, 1]],
                  [a[1, 2] * a[2, 0] - a[1, 0] * a[2, 2], a[0, 0] * a[2, 2] - a[0, 2] * a[2, 0], a[0, 2] * a[1, 0] - a[0, 0] * a[1, 2]],
                  [a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0], a[0, 1] * a[2, 0] - a[0, 0] * a[2, 1], a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]]], dtype=LD)
    return C / (a[0, 0] * C[0, 0] + a[0, 1] * C[1, 0] + a[0, 2] * C[2, 0])

def direct_matrix(steps):
    M = np.eye(4, dtype=LD)
    for op in steps:
        name, arg, E = elementary(op)
        if E is None: continue
        if name == 'compose' and op[1] % 2: E = np.eye(4, dtype=LD); E[:3, :3] = arg[0][:3, :3]
        M = E @ M
    return M

def done09(c, rec, nrb, src, s0, R, M, keep):
    unchanged(src, s0, 'transforming a clone changed the source')
    A = valid(nrb, 'transformed object', R.dim, R.nf)
    for a, b in zip(nrb.knots, s0[0]): same(a, b, 'knots')
    W = s0[1][..., 3]
    close(nrb.weights, W, 1e-12 * np.abs(W), 'weights')
    if R.nf:
        need(nrb.fields is not None, 'the fields are gone')
        F = s0[1][..., 4:] / W[..., None]
        close(nrb.fields, F, 1e-12 * (np.abs(F) + 1e-3), 'fields')
    def post(V, sc):
        X = V[..., :3] @ M[:3, :3].T + M[:3, 3]
        s = sc.copy(); s[:3] = np.abs(M[:3, :3]) @ sc[:3] + np.abs(M[:3, 3]) + 1e-3
        s[:3] += 1e-3 * np.abs(M).max()
        return np.concatenate([X, V[..., 3:]], axis=-1), s
    same_map(nrb, R, 'transformed object', post=post, rtol=1e-10 * max(1.0, float(np.abs(M).max())) , rec=rec)
    for o, m in keep: same(o.matrix, m, 'the transform a copy or clone was made of')
    rec.cls('dim%d' % R.dim)

register('C09', strategy=cases09, check=check09)

# ------------------------------------------------------------ C11
@st.composite
def cases11(draw):
    c = draw(gen.nurbs(mags=False, pmax=3, big=True))
    c['o'] = draw(gen.nurbs(dim=len(c['p']), maxspans=2, pmax=2, mags=False, nf=c['nf']))
    c['todo'] = [[draw(st.integers(0, 9999)), [draw(st.integers(0, 999)) for _ in range(8)], draw(st.integers(0, 3))]
                 for _ in range(draw(st.integers(1, 4)))]
    return c

def io_petiga(x, n, o):
    from igakit.io import PetIGA
    f = os.path.join(x.scratch, 'a'); P = PetIGA(*[('double', 'real', '32bit'), ('single', 'complex', '64bit')][x.n(1, 2)])
    P.write(f, n, control=bool(x.n(2, 3)), fields=bool(x.n(3, 2)), nsd=None if x.n(4, 2) else 3)
    r = P.read(f)
    return [r]
def io_vec(x, n, o):
    from igakit.io import PetIGA
    f = os.path.join(x.scratch, 'b'); P = PetIGA()
    A = shaped_vec(x, n)
    P.write_vec(f, A, n if x.n(1, 2) else None)
    return [P.read_vec(f, n if x.n(1, 2) else None)]
def shaped_vec(x, n):
    k = 1 + x.n(2, 2)
    shape = [tuple(n.shape) + (k,), (int(np.prod(n.shape)), k), (int(np.prod(n.shape)) * k,)][x.n(5, 3)]
    return x.arg(gen.unit(x.n(3, 9999), shape), keep=x.n(4, 2))
def io_vtk(x, n, o):
    from igakit.io import VTK
    f = os.path.join(x.scratch, 'c')
    if n.fields is None: VTK().write(f, n, control=bool(x.n(1, 2))); return []
    k = n.fields.shape[-1]
    s = {'b': 0, 'a': k - 1}; v = {'v': [0] * (1 + x.n(2, 3)), 'u': [k - 1]}
    if x.n(3, 2): s = list(s.items()); v = list(v.items())
    import copy
    s0, v0 = copy.deepcopy(s), copy.deepcopy(v)
    F = x.arg(gen.unit(x.n(4, 9999), tuple(n.shape) + (k,))) if x.n(5, 2) else True
    VTK().write(f, n, control=bool(x.n(1, 2)), fields=F, scalars=s, vectors=v)
    need(s == s0 and v == v0, 'VTK.write() changed its scalars or vectors argument')
    return []
def plots(x, n, o):
    from igakit.plot import Plotter
    p = Plotter('nul')
    for f in ('plot', 'cplot', 'kplot', 'cpoint', 'cwire', 'kpoint', 'kwire', 'curve', 'surface', 'volume'):
        getattr(p, f)(n)
    p.points(x.arg(gen.unit(3, (4, 2)))); p.quiver(x.arg(gen.unit(3, (4, 3))), x.arg(gen.unit(4, (4, 3))))
    return []

OPS11 = ops.ALL + [io_petiga, io_vec, io_vtk, plots]
# operations whose results have control points of their own
OWN = [ops.c_slice, ops.c_extract, ops.c_boundary, ops.c_copy, ops.c_identity, ops.k_extrude, ops.k_revolve, ops.k_ruled, ops.k_sweep, ops.k_coons, ops.k_join, ops.k_refine]

def check11(c, rec):
    n = gen.make(c, NURBS); o = gen.make(c['o'], NURBS)
    sn, so = snap(n), snap(o)
    need(n.array is not o.array, 'objects share arrays')
    scratch = None; names = []
    try:
        for k, q, form in c['todo']:
            f = OPS11[k * 7919 % len(OPS11)]
            if f.__name__.startswith('io_') and scratch is None: scratch = tempfile.mkdtemp(prefix='igakit-c11-')
            x = ops.Ctx(q, form, scratch)
            name = f.__name__.split('_', 1)[-1]; names.append(name)
            on = n.clone() if f in ops.EDITS else n
            try: res = f(x, on, o)
            except ValueError as e:
                if 'changed' in str(e): raise Violation(str(e))
                raise
            unchanged(n, sn, '%s changed %s' % (name, 'the source of the clone it was called on' if on is not n else 'its object'))
            unchanged(o, so, '%s changed another object' % name)
            ch = x.changed()
            need(ch is None, '%s changed an argument: %s', name, ch)
            outs = [r for r in res if isinstance(r, NURBS)]
            if f in ops.QUERIES or f in ops.KERNELS or f in OWN:
                # what is handed out belongs to the caller
                held = [n.array, o.array] + list(n.knots) + list(o.knots) if f not in OWN else [n.array, o.array]
                for r in res:
                    if isinstance(r, NURBS): r = r.array
                    if not isinstance(r, np.ndarray) or not r.size: continue
                    if f is ops.q_structure and any(r is v for v in x.views): continue
                    for a in held: need(not np.shares_memory(r, a), 'a result of %s shares memory with an object', name)
            if (k + q[0]) % 3 == 0 and f.__name__[:3] != 'io_' and f is not ops.c_clone:
                # overwrite the results, ask again
                A = [a.copy() for a in ops.flat(res)]
                spoil(res, [n.array, o.array] + list(n.knots) + list(o.knots) + [np.asarray(a[0]) for a in x.args if isinstance(a[0], np.ndarray)] + list(getattr(x, 'views', ())))
                unchanged(n, sn, 'writing to the results of %s changed its object' % name); unchanged(o, so, 'writing to the results of %s changed another object' % name)
                need(x.changed() is None, 'writing to the results of %s changed an argument: %s', name, x.changed())
                x = ops.Ctx(q, form, scratch); on = n.clone() if f in ops.EDITS else n
                res = f(x, on, o); outs = [r for r in res if isinstance(r, NURBS)]
                B = ops.flat(res)
                need(len(A) == len(B) and all(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in zip(A, B)), '%s gives something else after its first result was overwritten', name)
                rec.cls('asked again')
            if f is ops.c_copy:
                r = res[0]
                need(not np.shares_memory(r.array, n.array), 'a copy shares its array')
                for a, b in zip(r.knots, n.knots): need(not np.shares_memory(a, b), 'a copy shares a knot vector')
                np.asarray(r.array)[...] = 7
                for a in r.knots: a[...] = 3
                unchanged(n, sn, 'writing to the arrays of a copy changed the original')
                continue
            # keep working with the results: still nothing else changes
            for j, r in enumerate(outs):
                if not isinstance(r.dim, int) or r.dim < 1: continue
                if r.array[..., 3].min() <= 0: continue
                g = ops.EDITS[(q[(j + 2) % len(q)] + q[j % len(q)]) % len(ops.EDITS)]
                y = ops.Ctx(q[::-1], form + 1, scratch)
                try: g(y, r, None)
                except (AssertionError, ValueError): pass
                need(y.changed() is None, '%s on the result of %s changed an argument', g.__name__[2:], name)
                need(x.changed() is None, '%s on the result of %s changed an argument of the latter: %s', g.__name__[2:], name, x.changed())
                if on is n or r is not on: unchanged(n, sn, '%s on the result of %s changed the source object' % (g.__name__[2:], name))
                unchanged(o, so, '%s on the result of %s changed another object' % (g.__name__[2:], name))
            rec.cls(name)
    finally:
        if scratch: shutil.rmtree(scratch, ignore_errors=True)
    r = n.copy()
    for a in [r.array] + list(r.knots): a[...] = 7
    unchanged(n, sn, 'writing to the arrays of a copy changed the original')
    rec.nontrivial(len(set(names)) >= 2)

register('C11', strategy=cases11, check=check11)

# ------------------------------------------------------------ C27
@st.composite
def cases27(draw):
    c = draw(gen.nurbs(mags=False))
    c['o'] = draw(gen.nurbs(dim=len(c['p']), maxspans=2, pmax=2, mags=False, nf=c['nf']))
    c['todo'] = [[draw(st.integers(0, 9999)), [draw(st.integers(0, 999)) for _ in range(8)]]
                 for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 19)) == 0:
        # an interior knot more often than operations support; they may reject it
        i = draw(st.integers(0, len(c['p']) - 1)); p, U = c['p'][i], list(c['k'][i])
        inn = [t for t in U if U[p] < t < U[-p - 1]] or [U[p] + (U[-p - 1] - U[p]) * 0.4375]
        t = inn[draw(st.integers(0, len(inn) - 1))]
        c['k'][i] = sorted([u for u in U if u != t] + [t] * (p + draw(st.integers(1, 2)))); c['net'] -= c['net'] % len(gen.WAYS); c['over'] = 1
    return c

FILLS = [np.float64(np.nan), np.float64(1e300), np.frombuffer(b'\x7f' * 8, dtype='d')[0]]

def poison(k):
    """Fill the memory numpy keeps for small arrays, and some recently freed big blocks."""
    v = FILLS[k]
    for nb in list(range(8, 1025, 8)):
        xs = [np.empty(nb // 8) for _ in range(7)]
        for a in xs: a.fill(v)
        del xs
    for nb in list(range(4, 1025, 8)):
        xs = [np.empty(nb // 4, dtype='i4') for _ in range(7)]
        for a in xs: a.fill((-1, 0x7f7f7f7f, 0x55555555)[k])
        del xs
    for nb in (2000, 5000, 20000):
        a = np.empty(nb // 8); a.fill(v); del a

OPS27 = ops.ALL + 3 * [ops.q_derivative, ops.q_hessian, ops.q_gradient, ops.e_insert, ops.e_refine, ops.e_remove, ops.e_insrem,
                       ops.e_elevate, ops.e_clamp, ops.e_unclamp, ops.c_slice, ops.c_extract, ops.b_basis, ops.b_data, ops.b_col,
                       ops.b_rules, ops.b_knots, ops.b_edit, ops.k_grid, ops.k_refine, ops.k_join, ops.q_structure]

def check27(c, rec):
    names = []
    for k, q in c['todo']:
        f = OPS27[k * 7919 % len(OPS27)]
        if 'over' in c and f is ops.b_edit: f = ops.e_elevate        # the kernel itself asks for valid knots
        name = f.__name__.split('_', 1)[-1]
        runs = []
        for fill in (0, 1):
            n = gen.make(c, NURBS); o = gen.make(c['o'], NURBS)
            poison(fill)
            x = ops.Ctx(q, 1)
            try: res = f(x, n, o)
            except AssertionError:
                if 'over' not in c or f is ops.b_edit: raise
                rec.cls('rejected: multiplicity'); res = []
            runs.append([np.array(a) for a in ops.flat(res)])
        need(len(runs[0]) == len(runs[1]), '%s gave %d arrays and then %d', name, len(runs[0]), len(runs[1]))
        for a, b in zip(*runs):
            need(a.shape == b.shape and a.dtype == b.dtype, '%s gave results of shape %r and then %r', name, a.shape, b.shape)
            if a.dtype.kind == 'f' and 'over' not in c: finite(a, name)
            need(a.tobytes() == b.tobytes(), '%s gave different results when memory held other values: %s and %s',
                 name, a.ravel()[:12].tolist(), b.ravel()[:12].tolist())
        if runs[0]: names.append(name); rec.cls(name)
    rec.cls('dim%d' % len(c['p']))
    rec.nontrivial(len(names) > 0 and any(len(set(U)) > 3 or not gen.is_clamped(p, U, 0) for p, U in zip(c['p'], c['k'])))

register('C27', strategy=cases27, check=check27)

# ------------------------------------------------------------ C28
@st.composite
def cases28(draw):
    d = draw(st.sampled_from([1, 1, 2, 2, 3]))
    P = st.integers(1, (5, 4, 3)[d - 1])
    c = {'p': [], 'k': [], 'rat': draw(st.integers(0, 1)), 'nf': draw(st.integers(0, 2)), 'mag': 0, 'net': draw(st.integers(0, 1 << 20))}
    for i in range(d):
        p = draw(P); N = draw(st.integers((20, 4, 2)[d - 1], (80, 12, 4)[d - 1]))
        U = [0.0] * p + [float(t) for t in range(N + 1)] + [float(N)] * p
        if draw(st.integers(0, 3)) == 0: U = [float(t) for t in range(-p, N + p + 1)]
        c['p'].append(p); c['k'].append(U)
    c['o'] = draw(gen.nurbs(dim=d, maxspans=2, pmax=2, mags=False, nf=c['nf']))
    c['todo'] = [[draw(st.integers(0, 9999)), [draw(st.integers(0, 999)) for _ in range(8)]] for _ in range(draw(st.integers(2, 6)))]
    c['pts'] = draw(st.integers(3, 60))
    c['threads'] = draw(st.integers(2, 5))
    return c

def t_dense(x, n, o):
    m = max(2, x.pts * (20, 2, 1)[n.dim - 1] // (1, 1, 4)[n.dim - 1])
    uvw = [np.linspace(ops.dom(n, i)[0], ops.dom(n, i)[1], m) for i in range(n.dim)]
    return [n(*uvw)]
def t_dense_grad(x, n, o):
    m = max(2, x.pts * (10, 1, 1)[n.dim - 1] // (1, 2, 8)[n.dim - 1])
    uvw = [np.linspace(ops.dom(n, i)[0], ops.dom(n, i)[1], m) for i in range(n.dim)]
    return [n.gradient(None, *uvw), n.hessian(None, *uvw), n.derivative(3, None, *uvw)]

OPS28 = [f for f in ops.ALL if f not in (ops.b_rules, ops.b_knots, ops.k_line, ops.k_patch)] + [t_dense, t_dense_grad] * 4 + \
        [ops.e_insert, ops.e_refine, ops.e_elevate, ops.c_slice, ops.c_extract] * 2

def bits(res): return [(a.shape, a.tobytes()) for a in ops.flat(res)]

def check28(c, rec):
    n = gen.make(c, NURBS); o = gen.make(c['o'], NURBS)
    sn, so = snap(n), snap(o)
    tasks = [(OPS28[k * 7919 % len(OPS28)], q) for k, q in c['todo']]
    def do(f, q, keep=False):
        x = ops.Ctx(q, 1); x.pts = c['pts']
        a = n.clone() if q[0] % 3 else n.copy()
        return bits(f(x, a, o))
    # the first use of an operation happens in the threads; serial results are computed afterwards and before
    order = c['net'] % 2
    serial = [do(f, q) for f, q in tasks] if order else None
    T = c['threads']; rounds = 3
    got = [[None] * (rounds * len(tasks)) for _ in range(T)]
    errs = []
    bar = threading.Barrier(T)
    def work(t):
        try:
            bar.wait()
            for r in range(rounds):
                for j in range(len(tasks)):
                    k = (j + (t if r else 0)) % len(tasks)
                    got[t][r * len(tasks) + k] = do(*tasks[k])
        except Exception as e:
            errs.append(e)
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-5)
    try:
        ths = [threading.Thread(target=work, args=(t,)) for t in range(T)]
        for t in ths: t.start()
        for t in ths: t.join()
    finally: sys.setswitchinterval(old)
    if serial is None: serial = [do(f, q) for f, q in tasks]
    if errs: raise Violation('in a thread: %s: %s' % (type(errs[0]).__name__, str(errs[0])[:200]))
    for t in range(T):
        for r in range(rounds):
            for k, (f, q) in enumerate(tasks):
                g = got[t][r * len(tasks) + k]
                if g != serial[k]:
                    w = [np.abs(np.frombuffer(a[1]) - np.frombuffer(b[1])).max() for a, b in zip(g, serial[k])
                         if a != b and a[0] == b[0] and len(a[1]) % 8 == 0 and len(a[1])]
                    raise Violation('%s gave another result with %d threads at work than alone (largest differences %s)' % (f.__name__[2:], T, w))
    unchanged(n, sn, 'threads working on clones changed the shared object')
    unchanged(o, so, 'threads changed the shared object')
    for f, q in tasks: rec.cls(f.__name__[2:])
    rec.cls('dim%d' % len(c['p'])); rec.cls('%d threads' % T)
    rec.nontrivial(len(set(f.__name__ for f, q in tasks)) >= 2)

register('C28', strategy=cases28, check=check28)

# ------------------------------------------------------------ C29
@st.composite
def cases29(draw):
    c = draw(gen.nurbs())
    c['form'] = draw(st.sampled_from(['plain', 'weights', 'tuple', 'homogeneous', 'tuple-none', 'none']))
    c['sdim'] = draw(st.integers(2, 3))
    c['F'] = draw(st.sampled_from(['no', 'no', 'scalar', 1, 2, 4]))
    c['rep'] = draw(st.integers(0, 4))
    c['bad'] = [draw(st.integers(0, 99)) for _ in range(draw(st.integers(1, 4)))]
    return c

def rep(v, k):
    """The same values as nested lists, arrays of several layouts, or tuples."""
    v = np.asarray(v)
    k = k % 5
    if k == 0: return v.tolist()
    if k == 1: return v.copy()
    if k == 2: return np.asfortranarray(v)
    if k == 3:
        b = np.zeros(v.shape[:-1] + (2 * v.shape[-1],)); b[..., ::2] = v; return b[..., ::2]
    return [r for r in v.copy()]

def check29(c, rec):
    d = len(c['p'])
    P, W, _ = gen.data_of(dict(c, nf=0))
    shp = gen.shape_of(c); s = c['sdim']
    F = None
    if c['F'] == 'scalar': F = gen.unit(c['net'] + 5, shp) * 8 - 4
    elif c['F'] != 'no': F = gen.unit(c['net'] + 5, shp + (c['F'],)) * 8 - 4
    ks = [rep(np.array(k), 0 if c['rep'] == 0 else 1) for k in c['k']]
    if c['rep'] % 2: ks = tuple(ks)
    form = c['form']; r = c['rep']
    kw = {} if F is None else dict(fields=rep(F, r))
    P = P[..., :s]
    Wt = np.ones(shp)
    if form == 'none':
        # the constructor finds the degree as the multiplicity of the first domain knot
        for p, U in zip(c['p'], c['k']):
            q = 1
            while U[q] == U[q + 1]: q += 1
            if q != p:
                rec.cls('identity not applicable'); return
        n = NURBS(ks, **kw); want = np.zeros(shp + (3,), dtype=LD)
        for i, (p, U) in enumerate(zip(c['p'], c['k'])):
            g = np.array([sum(LD(t) for t in U[j + 1:j + p + 1]) / p for j in range(shp[i])])
            want[..., i] = g.reshape([-1 if j == i else 1 for j in range(d)])
        scale = max(1e-300, float(np.abs(want).max()))
        params = gen.grid_for(c['p'], c['k'])
        V = n(*params)
        G = np.stack(np.meshgrid(*params, indexing='ij'), axis=-1)
        full = np.zeros(V.shape); full[..., :d] = G
        close(V, full, 1e-12 * scale, 'the identity map', rec, 'identity')
    else:
        if form == 'plain': n = NURBS(ks, rep(P, r), **kw)
        elif form == 'weights': Wt = W; n = NURBS(ks, rep(P, r), weights=rep(W, r), **kw)
        elif form == 'tuple': Wt = W; n = NURBS(ks, (rep(P, r), rep(W, r)), **kw)
        elif form == 'tuple-none': n = NURBS(ks, (rep(P, r), None), **kw)
        else:
            Wt = W
            H = np.zeros(shp + (4,)); H[..., :3] = 0; H[..., :s] = P * W[..., None]; H[..., 3] = W
            n = NURBS(ks, rep(H, r), **kw)
        want = np.zeros(shp + (3,), dtype=LD); want[..., :s] = P
        scale = None
    rec.cls(form); rec.cls('dim%d' % d); rec.cls('fields', F is not None); rec.cls('planar points', s == 2)
    need(n.dim == d, 'dimension %r', n.dim)
    need(tuple(n.shape) == tuple(shp), 'shape %r instead of %r', n.shape, shp)
    need(tuple(n.degree) == tuple(c['p']), 'degree %r instead of %r', n.degree, c['p'])
    need(len(n.knots) == d, '%d knot vectors', len(n.knots))
    for a, b in zip(n.knots, c['k']): same(a, np.array(b), 'knots'); need(np.asarray(a).dtype == np.float64, 'knots of type %s', np.asarray(a).dtype)
    A = valid(n, 'new object', d, 0 if F is None else (1 if c['F'] == 'scalar' else c['F']))
    tolP = 4e-16 * np.abs(want) if scale is None else 1e-14 * scale
    close(n.points, want, tolP + 1e-300, 'points', rec, 'points')
    same(n.weights, Wt, 'weights')
    close(n.control[..., :3], want * Wt[..., None].astype(LD), (4e-16 * np.abs(want) if scale is None else 1e-14 * scale) * Wt[..., None] + 1e-300, 'control', rec, 'control')
    same(n.control[..., 3], Wt, 'weights in control')
    need(n.control.shape == shp + (4,), 'control has shape %r', n.control.shape)
    if F is None: need(n.fields is None, 'fields %r', n.fields)
    else:
        F2 = F[..., None] if F.ndim == d else F
        close(n.fields, F2, 4e-16 * np.abs(F2), 'fields', rec, 'fields')
    # inconsistent input
    H = np.zeros(shp + (4,)); H[..., 3] = 1
    for k in c['bad']:
        name, f = bads(c, ks, P, W, H, F, shp, d, k)
        if f is None: continue
        raises(f, name); rec.cls('rejected')
    rec.nontrivial(form != 'plain' or F is not None)

def grow(a, ax, by):
    if by > 0:
        return np.concatenate([a, np.take(a, [-1] * by, axis=ax)], axis=ax)
    return np.take(a, range(a.shape[ax] + by), axis=ax)

def bads(c, ks, P, W, H, F, shp, d, k):
    i = (k // 20) % d; ks = [np.array(t) for t in ks]
    few = [np.array(t) for t in ks]; few[i] = few[i][:-1]
    flat2 = [np.array(t) for t in ks]; flat2[i] = flat2[i][None, :]
    p, m = c['p'][i], len(ks[i])
    L = [
        ('weights with an additional entry', lambda: NURBS(ks, P, weights=grow(W, i, 1))),
        ('weights with an entry missing', lambda: NURBS(ks, P, weights=grow(W, i, -1))),
        ('weights with an additional axis', lambda: NURBS(ks, P, weights=W[..., None])),
        ('a single weight', lambda: NURBS(ks, P, weights=1.0)),
        ('weights for homogeneous control points', lambda: NURBS(ks, H, weights=W)),
        ('weights in a tuple and as an argument', lambda: NURBS(ks, (P, W), weights=W)),
        ('weights without control points', lambda: NURBS(ks, weights=W)),
        ('fields with an additional entry', lambda: NURBS(ks, P, fields=np.zeros(grow(W, i, 1).shape))),
        ('vector fields with an entry missing', lambda: NURBS(ks, P, fields=np.zeros(grow(W, i, -1).shape + (2,)))),
        ('fields with two more axes', lambda: NURBS(ks, P, fields=np.zeros(shp + (2, 2)))),
        ('points with one coordinate', lambda: NURBS(ks, P[..., :1])),
        ('points with five components', lambda: NURBS(ks, np.zeros(shp + (5,)))),
        ('control points with an axis too many', lambda: NURBS(ks, P[None])),
        ('control points with an axis missing', (lambda: NURBS(ks, P[0])) if d > 1 else None),
        ('more control points than knots allow (degree 0)', lambda: NURBS(ks, grow(P, i, m - 1 - shp[i]))),
        ('fewer control points than the degree requires', lambda: NURBS(ks, grow(P, i, -(shp[i] - max(1, (m - 2) // 2))))),
        ('no knot vector', lambda: NURBS([], P)),
        ('four knot vectors', lambda: NURBS([[0, 0, 1, 1]] * 4, np.zeros((2, 2, 2, 2, 3)))),
        ('a two dimensional knot vector', lambda: NURBS(flat2, P)),
        ('a knot vector with three knots', lambda: NURBS(ks[:i] + [np.array([0., 0., 1.])] + ks[i + 1:], P)),
        ('a knot vector missing', (lambda: NURBS(ks[:-1], P)) if d > 1 else None),
        ('a knot vector too many', (lambda: NURBS(ks + [np.array([0., 0., 1., 1.])], P)) if d < 3 else None),
    ]
    name, f = L[k % len(L)]
    if name.startswith('fewer') and not (2 * max(1, (m - 2) // 2) + 1 < m): f = None
    return name, f

register('C29', strategy=cases29, check=check29)
