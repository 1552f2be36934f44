"""Reference model: rational B-splines straight from the definition.

Written independently of the code under test (no span search, no in-place
triangular tables): the Cox-de Boor recursion over *all* basis functions in
extended precision, derivatives by the derivative recursion, quotients by the
general Leibniz rule.
"""
import itertools, math
import numpy as np

LD = np.longdouble

def domain(p, U):
    return U[p], U[len(U) - p - 1]

def spanof(p, U, x):
    """Index k of the nonempty knot interval that defines the value at x:
    U[k] <= x < U[k+1], and the last nonempty interval at the domain end."""
    n = len(U) - p - 2
    if x >= U[n + 1]:
        k = n
        while U[k] >= U[n + 1] and k > 0: k -= 1
        return k
    k = p
    while not (U[k] <= x < U[k + 1]): k += 1
    return k

def basis(p, U, xs, nd=0):
    """D[d] (len(xs), n+1): d-th derivatives of all basis functions; A[d] the same
    sums with absolute values (a bound for rounding)."""
    U = np.asarray(U, dtype=LD)
    xs = np.asarray(xs, dtype=LD).ravel()
    m = len(U) - 1
    x = xs[:, None]
    N = np.zeros((len(xs), m), dtype=LD)
    for r, t in enumerate(xs): N[r, spanof(p, U, t)] = 1
    def recip(q):
        # 1/(U[i+q]-U[i]) for i = 0..m-q, zero where the interval is empty
        d = U[q:] - U[:m + 1 - q]
        out = np.zeros_like(d)
        nz = d > 0
        out[nz] = 1 / d[nz]
        return out
    tab = [N]
    for q in range(1, p + 1):
        r = recip(q)
        c = m - q
        left = (x - U[:c]) * r[:c]
        right = (U[q + 1:q + 1 + c] - x) * r[1:c + 1]
        N = left * N[:, :c] + right * N[:, 1:c + 1]
        tab.append(N)
    D, A = [tab[p]], [np.abs(tab[p])]
    # T[k] = k-th derivatives at degree q, built up degree by degree
    for d in range(1, nd + 1):
        if d > p:
            D.append(np.zeros_like(tab[p])); A.append(np.zeros_like(tab[p])); continue
        T = tab[p - d]; B = np.abs(T)
        for q in range(p - d + 1, p + 1):
            r = recip(q); c = m - q
            T, B = (q * (T[:, :c] * r[:c] - T[:, 1:c + 1] * r[1:c + 1]),
                    q * (B[:, :c] * r[:c] + B[:, 1:c + 1] * r[1:c + 1]))
        D.append(T); A.append(B)
    return D, A

def contract(mats, arr):
    """Tensor-product sum: arr (n1,..,nd,c) with mats[i] (k_i, n_i)."""
    for i, M in enumerate(mats):
        arr = np.moveaxis(np.tensordot(M, arr, axes=(1, i)), 0, i)
    return arr

class Ref(object):
    """Knots, degrees and homogeneous data (wx, wy, wz, w, wF...) in extended precision."""
    def __init__(self, knots, array):
        self.U = [np.array(k, dtype=LD) for k in knots]
        self.A = np.array(array, dtype=LD)
        self.dim = len(self.U)
        self.p = [len(U) - n - 1 for U, n in zip(self.U, self.A.shape)]
    @property
    def nf(self): return self.A.shape[-1] - 4
    def dom(self, i): return domain(self.p[i], self.U[i])
    def points(self):
        return self.A[..., :3] / self.A[..., 3:4]
    def fields(self):
        return self.A[..., 4:] / self.A[..., 3:4]
    def values(self):
        """Cartesian control values, points then fields (..., 3+nf)."""
        V = np.concatenate([self.points(), self.fields()], axis=-1)
        return V
    def hom(self, params):
        mats = [basis(p, U, x)[0][0] for p, U, x in zip(self.p, self.U, params)]
        return contract(mats, self.A)
    def __call__(self, *params):
        """(k1,..,kd, 3+nf) Cartesian values on the tensor grid of params."""
        H = self.hom(params)
        return np.concatenate([H[..., :3], H[..., 4:]], axis=-1) / H[..., 3:4]
    def weight(self, *params):
        return self.hom(params)[..., 3]
    def scale(self):
        """Per component size of the control values times the weight ratio."""
        V = np.abs(self.values())
        V = V.reshape(-1, V.shape[-1]).max(axis=0)
        s = np.maximum(V, 0)
        if self.dim:
            g = s[:3].max() if len(s) else LD(1)
            s[:3] = g
        w = np.abs(self.A[..., 3]); k = w.max() / w.min()
        return np.maximum(s, LD(1e-30)) * max(k, LD(1))
    def derivs(self, order, params, F, wts=None, third_for_fourth=False):
        """All partial derivatives of total order `order` of the rational function
        with Cartesian control values F (n1..nd,c): returns (value, bound), each
        (k1..kd, c) + (dim,)*order, bound = size of the terms that are added up.
        third_for_fourth: the values a recorded defect gives (see known_findings.txt)."""
        dim = self.dim
        w = self.A[..., 3] if wts is None else np.asarray(wts, dtype=LD)
        F = np.asarray(F, dtype=LD)
        H = np.concatenate([F * w[..., None], w[..., None]], axis=-1)
        Hs = np.abs(H)
        BD, BA = [], []
        for p, U, x in zip(self.p, self.U, params):
            D, A = basis(p, U, x, order); BD.append(D); BA.append(A)
        cache = {}
        def homd(al):
            if third_for_fourth and al == (4,): al = (3,)
            if al not in cache:
                cache[al] = (contract([BD[i][a] for i, a in enumerate(al)], H),
                             contract([BA[i][a] for i, a in enumerate(al)], Hs))
            return cache[al]
        w0 = homd((0,) * dim)[0][..., -1:]
        sol = {}
        def rat(al):
            if al in sol: return sol[al]
            h, hb = homd(al)
            num = h[..., :-1].copy(); bnd = hb[..., :-1].copy()
            for be in itertools.product(*[range(a + 1) for a in al]):
                if not any(be): continue
                c = 1
                for a, b in zip(al, be): c *= math.comb(a, b)
                hv, hvb = homd(be)
                rv, rb = rat(tuple(a - b for a, b in zip(al, be)))
                num -= c * hv[..., -1:] * rv
                bnd += c * hvb[..., -1:] * rb
            sol[al] = (num / w0, bnd / w0)
            return sol[al]
        shp = tuple(len(np.ravel(x)) for x in params) + (F.shape[-1],) + (dim,) * order
        V = np.zeros(shp, dtype=LD); B = np.zeros(shp, dtype=LD)
        for idx in itertools.product(range(dim), repeat=order):
            al = tuple(idx.count(i) for i in range(dim))
            v, b = rat(al)
            V[(Ellipsis,) + idx] = v; B[(Ellipsis,) + idx] = b
        return V, B

def of(nrb):
    """Reference of an igakit object, from its public data."""
    return Ref(nrb.knots, nrb.array)
