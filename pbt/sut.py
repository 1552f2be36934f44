"""Everything imported from the code under test, plus validity checks of objects."""
import copy, functools, warnings
import numpy as np
warnings.simplefilter('ignore')
np.seterr(all='ignore')
from igakit.nurbs import NURBS
from igakit.transform import transform
from igakit import cad as _cad
from igakit import igalib
bsp = igalib.bsp
iga = igalib.iga
from core import Violation, need, finite, close, same, raises
import gen, ref

def spoil(r, spare=()):
    """Overwrite every array of a result, as a caller may, but not those that share memory with the spared ones."""
    if isinstance(r, NURBS): r = [r.array] + list(r.knots)
    if isinstance(r, (list, tuple)):
        for x in r: spoil(x, spare)
    elif isinstance(r, np.ndarray) and r.size and r.flags.writeable and not any(np.may_share_memory(r, s) for s in spare):
        r[...] = 7 if r.dtype.kind != 'b' else True

class Afresh(object):
    """A module whose functions, while switched on, are called on copies of the arguments first; the outcome of
    that call is overwritten. Nothing of it may show in the call that is judged."""
    on = False
    def __init__(self, module): self._module = module
    def __getattr__(self, name):
        f = getattr(self._module, name)
        if not callable(f): return f
        @functools.wraps(f)
        def call(*args, **kw):
            if Afresh.on:
                a, k = copy.deepcopy((args, kw))
                try: spoil(f(*a, **k))
                except Exception: pass
            return f(*args, **kw)
        return call
cad = Afresh(_cad)

def valid(nrb, msg, dim=None, nf=None):
    """Structural validity of an object."""
    d = nrb.dim
    if dim is not None: need(d == dim, '%s: dimension %r instead of %r', msg, d, dim)
    A = np.asarray(nrb.array)
    need(A.ndim == d + 1, '%s: array has %r axes', msg, A.ndim)
    need(A.shape[-1] >= 4, '%s: %r components', msg, A.shape[-1])
    if nf is not None: need(A.shape[-1] == 4 + nf, '%s: %d components instead of %d', msg, A.shape[-1], 4 + nf)
    need(tuple(nrb.shape) == A.shape[:-1], '%s: shape', msg)
    finite(A, msg + ' (array)')
    need(len(nrb.knots) == d and len(nrb.degree) == d, '%s: knots/degree count', msg)
    for i, (p, U, n) in enumerate(zip(nrb.degree, nrb.knots, A.shape)):
        U = np.asarray(U)
        finite(U, msg + ' (knots)')
        need(U.ndim == 1 and p == len(U) - n - 1 and p >= 1, '%s: axis %d degree %r, %d knots, %d points', msg, i, p, len(U), n)
        need(n >= p + 1, '%s: axis %d has %d points for degree %d', msg, i, n, p)
        need(np.all(np.diff(U) >= 0), '%s: axis %d knots decrease: %r', msg, i, U.tolist())
        need(U[p] < U[-p - 1], '%s: axis %d empty domain', msg, i)
    W = A[..., 3]
    return A

def evaluate(nrb, params):
    """Values (k1..kd, 3+nf) computed by the library for geometry and fields."""
    kw = dict(zip('uvw', [np.asarray(x, dtype='d') for x in params]))
    if nrb.fields is not None:
        C, F = nrb(fields=True, **kw)
        return np.concatenate([C, F], axis=-1)
    return nrb(**kw)

def same_map(nrb, R, msg, params=None, phi=None, rtol=1e-9, rec=None, post=None, lib=True,
             name='map'):
    """nrb(params) equals R(phi(params)) (post-processed), by the reference model on the
    object's data and by the library's own evaluation."""
    if params is None: params = gen.grid_for(nrb.degree, nrb.knots)
    src = phi(params) if phi else params
    want = R(*src)
    sc = R.scale()
    if post is not None: want, sc = post(want, sc)
    tol = rtol * sc
    got = ref.of(nrb)(*params)
    close(got, want, tol, msg, rec, name)
    if lib:
        close(evaluate(nrb, params), want, tol, msg + ' (evaluated by the library)', rec, name)

def knots_equal(U, want, msg, tol=0):
    U = np.asarray(U); want = np.asarray(want, dtype='d')
    need(U.shape == want.shape, '%s: %d knots instead of %d: %r vs %r', msg, len(U), len(want), U.tolist(), want.tolist())
    if tol == 0: need(np.array_equal(U, want), '%s: knots %r instead of %r', msg, U.tolist(), want.tolist())
    else:
        s = max(1e-300, np.abs(want).max(), want[-1] - want[0])
        need(np.abs(U - want).max() <= tol * s, '%s: knots %r instead of %r', msg, U.tolist(), want.tolist())

def snap(nrb):
    return ([np.array(k) for k in nrb.knots], np.array(nrb.array))

def unchanged(nrb, s, msg):
    need(len(nrb.knots) == len(s[0]), '%s: knots changed', msg)
    for a, b in zip(nrb.knots, s[0]): same(a, b, msg + ' (knots)')
    same(nrb.array, s[1], msg + ' (array)')

def structure(nrb, msg):
    """Everything an object tells about its knots, against its knots as they are now."""
    for i, (p, U) in enumerate(zip(nrb.degree, nrb.knots)):
        U = [float(t) for t in U]; n = len(U) - p - 2
        br = sorted(set(U[p:n + 2]))
        same(nrb.breaks(i), br, '%s: breaks of axis %d' % (msg, i))
        mu = [U.count(t) for t in br]; mu[0] = min(mu[0], p); mu[-1] = min(mu[-1], p)
        u, s = nrb.breaks(i, mults=True)
        same(u, br, '%s: breaks of axis %d' % (msg, i)); same(s, mu, '%s: multiplicities of axis %d' % (msg, i))
        same(nrb.spans(i), [k for k in range(p, n + 1) if U[k] < U[k + 1]], '%s: spans of axis %d' % (msg, i))
        g = np.array([sum(U[j + 1:j + p + 1]) / p for j in range(n + 1)])
        close(nrb.greville(i), g, 1e-14 * max(abs(t) for t in U) + 1e-300, '%s: Greville points of axis %d' % (msg, i))
        for f in ('lagrange', 'lobatto'):
            if f == 'lobatto' and p > 9: continue
            L = getattr(nrb, f)(i)
            need(len(L) == (len(br) - 1) * p + 1, '%s: %d %s points on axis %d', msg, len(L), f, i)
            close(L[::p], br, 1e-15 * max(abs(t) for t in U), '%s: breaks among the %s points of axis %d' % (msg, f, i))
