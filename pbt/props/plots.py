"""C26: what is handed to the drawing backends."""
import itertools
import numpy as np
from hypcompat import st
import gen, ref
from core import register, need, close, same, raises, Violation
from sut import NURBS, snap, unchanged

WHAT = ['cpoint', 'cwire', 'kpoint', 'kwire', 'ksurf', 'curve', 'surface', 'volume', 'plot', 'cplot', 'kplot', 'points', 'quiver']

@st.composite
def cases(draw):
    c = draw(gen.nurbs(maxspans=3, pmax=3))
    k = draw(st.integers(0, 9))
    if k == 7: c = draw(gen.nurbs(dims=(1,), maxspans=80, pmax=3))        # long nets
    elif k == 8:
        c = draw(gen.nurbs(dims=(1, 2, 3), maxspans=2, pmax=2)); i = draw(st.integers(0, len(c['p']) - 1))
        a = draw(gen.axes(maxspans=60, pmax=3, nmax=70)); c['p'][i] = a['p']; c['k'][i] = a['k']
    c['what'] = [draw(st.sampled_from(WHAT)) for _ in range(draw(st.integers(1, 4)))]
    c['be'] = draw(st.integers(0, 9)); c['opt'] = draw(st.integers(0, 3)); c['axes'] = draw(st.integers(0, 6))
    return c

class Recorder(object):
    """A backend module: keeps the arrays it is given."""
    _resolution = {1: 64, 2: 32}
    def __init__(self, r1, r2): self.calls = []; self._resolution = {1: r1, 2: r2}
    def points3d(self, x, y, z, **kw): self.calls.append(('points', stack(x, y, z)))
    def quiver3d(self, x, y, z, u, v, w, **kw): self.calls.append(('quiver', (stack(x, y, z), stack(u, v, w))))
    def line3d(self, lines, **kw):
        for l in lines: self.calls.append(('net', stack(*l)))
    def surf3d(self, surfs=(), **kw):
        for l in surfs: self.calls.append(('surf', stack(*l)))

def stack(x, y, z):
    return np.stack([np.array(x).T, np.array(y).T, np.array(z).T], axis=-1)

class Mpl(object):
    """The matplotlib backend with its axes' drawing methods replaced by recorders."""
    def __enter__(self):
        from igakit import plot_mpl
        from mpl_toolkits.mplot3d import Axes3D
        self.m, self.A, self.calls = plot_mpl, Axes3D, []
        self.old = dict((k, Axes3D.__dict__[k]) for k in ('scatter', 'plot', 'plot_wireframe', 'plot_surface') if k in Axes3D.__dict__)
        calls = self.calls
        st3 = lambda x, y, z: np.stack([np.array(x), np.array(y), np.array(z)], axis=-1)
        Axes3D.scatter = lambda self_, x, y, z, *a, **k: calls.append(('points', st3(x, y, z)))
        Axes3D.plot = lambda self_, x, y, z, *a, **k: calls.append(('net', st3(x, y, z)))
        def wf(self_, X, Y, Z, *a, **k):
            need(k.get('rstride', 1) == 1 and k.get('cstride', 1) == 1, 'lines left out of a wire frame: %r', k)
            calls.append(('net', st3(X, Y, Z)))
        Axes3D.plot_wireframe = wf
        def sf(self_, X, Y, Z, *a, **k):
            need(k.get('rstride', 1) == 1 and k.get('cstride', 1) == 1, 'points left out of a surface: %r', k)
            calls.append(('surf', st3(X, Y, Z)))
        Axes3D.plot_surface = sf
        return self
    def __exit__(self, *a):
        for k, v in self.old.items(): setattr(self.A, k, v)
        import matplotlib.pyplot as p
        p.close('all')

class Myv(object):
    """The mayavi backend over stand-ins for the parts of mayavi it uses. What its line and
    surface sources make of the grids they are given (points, segments, quadrilaterals) is judged here."""
    stubs = None
    def __init__(self):
        import types
        if Myv.stubs is None:
            class Scalars(object): pass
            class PointData(object):
                def __setattr__(self, k, v): s = Scalars(); s.data = v; object.__setattr__(self, k, s)
            class Traits(object):
                def __init__(self, **kw): self.set(**kw)
                def set(self, trait_change_notify=True, **kw):
                    for k, v in kw.items(): setattr(self, k, v)
                trait_set = set
            class PolyData(Traits):
                points = lines = polys = None
                def __init__(self, **kw): self.point_data = PointData(); Traits.__init__(self, **kw)
            class Source(Traits):
                dataset = None
                def __init__(self, **kw): self.point_list, self.line_list, self.poly_list = [], [], []; Traits.__init__(self, **kw)
            def M(name, **kw):
                m = types.ModuleType(name); m.__dict__.update(kw); return m
            nothing = lambda *a, **k: None
            mlab = M('mayavi.mlab', **dict((k, nothing) for k in 'figure gcf clf close savefig show title xlabel ylabel zlabel colorbar points3d quiver3d'.split()))
            tools = M('mayavi.tools.tools', add_dataset=lambda ds, name='', **kw: (Myv.now.datasets.append(ds), ds)[1])
            conv = lambda args: tuple(np.atleast_1d(np.asarray(a)) for a in args)
            sources = M('mayavi.tools.sources', MlabSource=Source, convert_to_arrays=conv, tools=tools)
            def pipeline(p):
                return lambda *a, **k: Myv.now.draw(type(p)._source_function, a, k)
            helper = M('mayavi.tools.helper_functions', List=lambda *a, **k: None, Array=None, Callable=lambda f: staticmethod(f), Plot3d=Traits, Mesh=Traits, document_pipeline=pipeline)
            mtools = M('mayavi.tools', tools=tools, sources=sources, helper_functions=helper)
            api = M('tvtk.api', tvtk=M('tvtk', PolyData=PolyData))
            Myv.stubs = {'mayavi': M('mayavi', mlab=mlab, tools=mtools), 'mayavi.mlab': mlab, 'mayavi.tools': mtools, 'mayavi.tools.tools': tools,
                         'mayavi.tools.sources': sources, 'mayavi.tools.helper_functions': helper, 'tvtk': M('tvtk', api=api), 'tvtk.api': api}
        self.calls, self.datasets = [], []
    def __enter__(self):
        import sys
        self.old = dict((k, sys.modules.get(k)) for k in Myv.stubs)
        sys.modules.update(Myv.stubs)
        Myv.now = self
        from igakit import plot_myv as m
        self.m = m
        self.saved = dict((k, getattr(m, k)) for k in ('points3d', 'quiver3d'))
        m.points3d = lambda x, y, z, **kw: self.calls.append(('points', stack(x, y, z)))
        m.quiver3d = lambda x, y, z, u, v, w, **kw: self.calls.append(('quiver', (stack(x, y, z), stack(u, v, w))))
        return self
    def __exit__(self, *a):
        import sys
        for k, v in self.saved.items(): setattr(self.m, k, v)
        for k, v in self.old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    def draw(self, source, a, k):
        kind = 'lines' if 'lines' in k else 'surfs' if 'surfs' in k else 'lines' if source is getattr(getattr(self.m, 'Line3d', None), '_source_function', 0) else 'surfs'
        given = [tuple(np.array(x) for x in g) for g in (k[kind] if kind in k else a[0])]
        n = len(self.datasets)
        source(*a, **dict((i, k[i]) for i in ('lines', 'surfs') if i in k))
        need(len(self.datasets) == n + 1, 'mayavi: %d data sets for one drawing', len(self.datasets) - n)
        ds = self.datasets[-1]
        grids = [np.stack(g, axis=-1) for g in given]
        X = np.asarray(ds.points); need(X.ndim == 2 and X.shape[1] == 3, 'mayavi: points of shape %r', X.shape)
        same(X, np.concatenate([g.reshape(-1, 3) for g in grids]), 'mayavi: points of the data set')
        cells, want = (ds.lines, set(segments(grids))) if kind == 'lines' else (ds.polys, set(f for g in grids for f in faces(g)))
        other = ds.polys if kind == 'lines' else ds.lines
        need(other is None or len(other) == 0, 'mayavi: both lines and polygons')
        cells = np.asarray(cells); w = 2 if kind == 'lines' else 4
        need(cells.ndim == 2 and cells.shape[1] == w and cells.dtype.kind in 'iu', 'mayavi: cells of shape %r', cells.shape)
        need(not cells.size or cells.min() >= 0 and cells.max() < len(X), 'mayavi: a cell refers to a point that does not exist')
        # cells within the points of one grid each
        at = np.cumsum([0] + [g[..., 0].size for g in grids])
        own = np.searchsorted(at, cells, 'right')
        need((own == own[:, :1]).all(), 'mayavi: a cell joins points of different lines or surfaces')
        got = X[cells].tolist()
        got = set((min(s, t), max(s, t)) for s, t in ((tuple(s), tuple(t)) for s, t in got)) if w == 2 else set(quad(q) for q in got)
        need(got == want, 'mayavi: %d different cells drawn, %d expected; %d not among the latter', len(got), len(want), len(got - want))
        for g in given: self.calls.append(('net' if kind == 'lines' else 'surf', stack(*g)))

def quad(q):
    """A quadrilateral irrespective of the corner it starts at and of its direction."""
    q = [tuple(p) for p in q]
    return min(tuple(r[i:] + r[:i]) for r in (q, q[::-1]) for i in range(4))

def faces(g):
    """Faces of the cells of a grid of points."""
    d = g.ndim - 1; out = set()
    for a in range(d):
        for b in range(a + 1, d):
            h = np.moveaxis(g, (a, b), (0, 1)).tolist()
            def rec(h00, h10, h11, h01, n):
                if n == 0: out.add(quad([h00, h10, h11, h01]))
                else:
                    for w, x, y, z in zip(h00, h10, h11, h01): rec(w, x, y, z, n - 1)
            for i in range(len(h) - 1):
                for j in range(len(h[0]) - 1): rec(h[i][j], h[i + 1][j], h[i + 1][j + 1], h[i][j + 1], d - 2)
    return out

def segments(nets):
    """Sorted unordered segments of nets of any dimension."""
    out = []
    for N in nets:
        for ax in range(N.ndim - 1):
            a = np.moveaxis(N, ax, 0)
            P, Q = a[:-1].reshape(-1, 3), a[1:].reshape(-1, 3)
            for s, t in zip(map(tuple, P.tolist()), map(tuple, Q.tolist())): out.append((min(s, t), max(s, t)))
    return sorted(out)

def lin(c, i, n):
    p, U = c['p'][i], c['k'][i]
    return np.linspace(U[p], U[len(U) - p - 1], n).tolist()

def brk(c, i):
    p, U = c['p'][i], c['k'][i]
    return sorted(set(U[p:len(U) - p]))

def match(got, want, tol, msg, rec):
    """Every expected array among the recorded ones (each once), possibly run through backwards."""
    need(len(got) == len(want), '%s: %d drawn instead of %d', msg, len(got), len(want))
    left = list(got)
    for w in want:
        for k, g in enumerate(left):
            if g.shape != w.shape: continue
            flips = [g]
            for ax in range(g.ndim - 1): flips += [np.flip(f, ax) for f in flips]
            if any((np.abs(f - w) <= tol).all() for f in flips): left.pop(k); break
        else:
            raise Violation('%s: no drawn line or surface follows the object through %s' % (msg, w.reshape(-1, 3)[[0, -1]].astype('d').tolist()))

def check(c, rec):
    from igakit.plot import Plotter
    nrb = gen.make(c, NURBS); R = gen.ref_of(c); d = nrb.dim; s0 = snap(nrb)
    tol = 1e-10 * R.scale()[:3]
    pts = np.asarray(R.points(), dtype='d')
    mpl = c['be'] <= 1
    if mpl:
        with Mpl() as m:
            from igakit import plot_mpl as backend
            P = Plotter(['mpl', 'matplotlib'][c['net'] % 2])
            # another plotter with another backend draws nothing here
            Q = Plotter(); Q.use(['nul', 'null', 'none'][c['net'] % 3])
            need(P.backend is backend and Q.backend is not backend, 'two plotters share their backend')
            Q.plot(nrb); need(not m.calls, 'the other plotter draws here')
            run(c, rec, P, m.calls, nrb, R, tol, backend._resolution)
    elif c['be'] == 2 and np.prod(nrb.shape) < 400:
        with Myv() as m:
            P = Plotter(['myv', 'mayavi'][c['net'] % 2])
            need(P.backend is m.m, 'the backend asked for is not used')
            old = m.m._resolution; m.m._resolution = {1: 17, 2: 5}
            try: run(c, rec, P, m.calls, nrb, R, tol, m.m._resolution)
            finally: m.m._resolution = old
            # grids of any dimension, several at once
            X = np.asarray(nrb.points); g = [X.T, X[:2].T + 9, X[::-1].T + 18, X[:, :2].T + 27 if d > 1 else X[1:].T + 27][:2 + c['net'] % 3]
            del m.calls[:]; P.line3d(lines=[tuple(x) for x in g])
            need(len(m.calls) == len(g), 'mayavi: line3d')
            if d > 1: P.surf3d(surfs=[tuple(x) for x in g])
        rec.cls('mayavi')
    else:
        r = Recorder(*[(64, 32), (9, 4), (2, 2), (17, 5)][c['be'] % 4])
        p = Plotter(); p._backend = r
        run(c, rec, p, r.calls, nrb, R, tol, r._resolution)
    unchanged(nrb, s0, 'plotting changed the object')
    rec.cls('dim%d' % d); rec.cls('matplotlib', mpl)
    rec.nontrivial(d > 1 or c['rat'] > 0)

def run(c, rec, P, calls, nrb, R, tol, res):
    d = nrb.dim; n1, n2 = res[1], res[2]
    opt = [{}, {'color': (0.1, 0.2, 0.3)}, {'mode': 'line'}, {'mode': 'tube'}][c['opt']]
    for what in c['what']:
        del calls[:]
        kw = dict(opt)
        if what in ('surface', 'volume', 'ksurf', 'points', 'quiver', 'cpoint', 'kpoint', 'cplot', 'kplot') or (what == 'plot' and d > 1): kw.pop('mode', None)
        if what == 'quiver' and not isinstance(P.backend, Recorder): continue
        if what in ('points', 'quiver'):
            k = 1 + c['net'] % 3
            A = gen.unit(c['net'], (4, k)) * 2; B = gen.unit(c['net'] + 1, (4, k))
            f = np.zeros((4, 3)); f[:, :k] = A; g = np.zeros((4, 3)); g[:, :k] = B
            if what == 'points': P.points(A, **kw)
            else: P.quiver(A, B, **kw)
            need(len(calls) == 1, '%s drew %d times', what, len(calls))
            if what == 'points': same(calls[0][1], f, 'points')
            else: same(calls[0][1][0], f, 'arrow bases'); same(calls[0][1][1], g, 'arrows')
            rec.cls(what); continue
        axes = None
        if what in ('kwire', 'ksurf') and c['axes']:
            axes = [i for i in range(d) if (c['axes'] >> i) & 1] or None
            if axes and len(axes) == 1 and c['axes'] > 3: axes = axes[0]
        if axes is not None: kw['axes'] = axes
        sel = list(range(d)) if axes is None else ([axes] if isinstance(axes, int) else axes)
        if what == 'ksurf' and d != 3: continue
        getattr(P, what)(nrb, **kw)
        got = {}
        for k, a in calls: got.setdefault(k, []).append(a)
        for k, v in got.items():
            for a in v: need(a.shape[-1] == 3 and np.isfinite(a).all(), '%s: array of shape %r', what, a.shape)
        rec.cls(what)
        eff = {'plot': ('curve', 'surface', 'volume')[d - 1]}.get(what, what)
        wantp, wantn, wants = None, None, None
        if eff in ('cpoint', 'cplot'): wantp = ('exact', np.asarray(nrb.points).reshape(-1, 3))
        if eff in ('kpoint', 'kplot'):
            wantp = ('tol', R(*[brk(c, i) for i in range(d)])[..., :3].reshape(-1, 3))
        if eff in ('cwire', 'cplot'): wantn = 'control'
        if eff in ('kwire', 'kplot'):
            wantn = []
            for ax in sel:
                uvw = [lin(c, i, n1) if i == ax else brk(c, i) for i in range(d)]
                V = np.moveaxis(R(*uvw)[..., :3], ax, -2).reshape(-1, n1, 3)
                wantn += list(V)
        if eff == 'ksurf':
            wants = []
            for ax in sel:
                for b in brk(c, ax):
                    uvw = [[b] if i == ax else lin(c, i, n2) for i in range(d)]
                    wants.append(np.take(R(*uvw)[..., :3], 0, axis=ax))
        if eff == 'curve': wantn = outline(c, R, d, n1, list(range(d)), {})
        if eff == 'surface' and d > 1 or eff == 'volume' and d > 2:
            if d == 2: wants = [R(lin(c, 0, n2), lin(c, 1, n2))[..., :3]]
            else:
                wants = []
                for ax in range(d):
                    for b in (brk(c, ax)[0], brk(c, ax)[-1]):
                        uvw = [[b] if i == ax else lin(c, i, n2) for i in range(d)]
                        wants.append(np.take(R(*uvw)[..., :3], 0, axis=ax))
        if wantp is None: need('points' not in got, '%s draws points', what)
        else:
            g = np.concatenate([a.reshape(-1, 3) for a in got.get('points', [np.zeros((0, 3))])])
            w = wantp[1]
            need(len(g) == len(w), '%s: %d points drawn instead of %d', what, len(g), len(w))
            if wantp[0] == 'exact': need(sorted(g.tolist()) == sorted(w.tolist()), '%s: the points drawn are not the control points', what)
            else: match([x[None] for x in g], [x[None] for x in w], tol, what, rec)
        if wantn is None: need('net' not in got, '%s draws lines', what)
        elif isinstance(wantn, str):
            need(segments(got.get('net', [])) == segments([np.asarray(nrb.points)]), '%s: the lines drawn are not those of the control net', what)
        else: match(got.get('net', []), wantn, tol, what, rec)
        if wants is None: need('surf' not in got, '%s draws surfaces', what)
        else: match(got.get('surf', []), wants, tol, what, rec)

def outline(c, R, d, n, free, fixed):
    """Curves of the boundary (edges once per face they belong to, as the plotter draws them)."""
    if len(free) == 1:
        uvw = [[fixed[i]] if i in fixed else lin(c, i, n) for i in range(d)]
        return [R(*uvw)[..., :3].reshape(-1, 3)]
    out = []
    for ax in free:
        for b in (brk(c, ax)[0], brk(c, ax)[-1]):
            out += outline(c, R, d, n, [i for i in free if i != ax], merged(fixed, ax, b))
    return out

def merged(f, k, v):
    g = dict(f); g[k] = v; return g

register('C26', strategy=cases, check=check)
