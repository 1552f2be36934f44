"""C01 evaluation, C02 derivatives."""
import numpy as np
from hypcompat import st
import gen, ref
from core import register, need, close, raises, Violation, listed
from sut import NURBS, snap, unchanged

# ------------------------------------------------------------ shared
@st.composite
def params(draw, d, near=True):
    out = []
    for _ in range(d):
        k = draw(st.integers(0, 6))
        if k == 0: out.append(None)
        elif k <= 2: out.append(draw(gen.tokens(near)))
        else: out.append([draw(gen.tokens(near)) for _ in range(draw(st.integers(1, 5)))])
    return out

def resolve(c, spec):
    """(argument to pass, 1-d values, scalar?) per axis."""
    args, vals, scal = [], [], []
    many = c.get('many', 0)
    for i, (p, U, s) in enumerate(zip(c['p'], c['k'], spec)):
        form = int(gen.splitmix(c['net'] + 31 + i, 1)[0] >> np.uint64(8)) % 8
        if s is None:
            n = len(U) - p - 1
            args.append(None); vals.append(None); scal.append(False)
        elif s and isinstance(s[0], str):
            x = gen.value(s, p, U)
            args.append(one(x, form)); vals.append([x]); scal.append(True)
        else:
            x = [gen.value(t, p, U) for t in s]
            if many:
                a, b = U[p], U[len(U) - p - 1]
                x += [min(max(a + (b - a) * t, a), b) for t in gen.unit(c['net'] + 71 + i, ((0, 3000, 70, 14)[len(c['p'])] * (i + many) // (i + 3),)).tolist()]
            args.append(several(x, form)); vals.append(x); scal.append(False)
    return args, vals, scal

def one(x, form):
    """A scalar parameter as Python or NumPy float, integer or 0-d array."""
    if form < 4: return x
    if form == 4: return np.float64(x)
    if form == 5: return np.array(x)
    return int(x) if x == int(x) and form == 6 else np.int32(x) if x == int(x) else x

def several(x, form):
    if form < 3: return np.array(x)
    if form == 3: return list(x)
    if form == 4: return tuple(x)
    if form == 5:
        a = np.full(3 * len(x), np.nan); a[::3] = x; return a[::3]
    if form == 6: a = np.array(x[::-1]); return a[::-1]
    if all(t == int(t) for t in x): return np.array(x, dtype='i')
    a = np.array(x); a.flags.writeable = False; return a

def greville(p, U):
    return [sum(np.longdouble(x) for x in U[i + 1:i + p + 1]) / p for i in range(len(U) - p - 1)]

def fill(nrb, c, vals, msg):
    """Default parameters are the Greville points (checked against the knot averages)."""
    out = []
    for i, v in enumerate(vals):
        if v is None:
            g = nrb.greville(i)
            w = greville(c['p'][i], c['k'][i])
            close(g, np.array(w), 1e-13 * max(abs(float(w[0])), abs(float(w[-1])), 1e-300) + 1e-300, msg + ': Greville points')
            v = [float(x) for x in g]
        out.append(v)
    return out

def inside(p, U, xs):
    a, b = U[p], U[len(U) - p - 1]
    return all(a <= x <= b for x in xs)

def drop(want, d, scal):
    idx = tuple(0 if s else slice(None) for s in scal)
    return want[idx]

def user_fields(c, spec):
    shp = gen.shape_of(c)
    F = gen.unit(c['net'] + 4242, shp if spec == 'scalar' else shp + (spec,)) * 6 - 3
    form = int(gen.splitmix(c['net'] + 57, 1)[0] >> np.uint64(8)) % 6
    if form == 1: return np.asfortranarray(F)
    if form == 2: F = np.round(F); return F.astype('i')
    if form == 3: G = np.full(F.shape + (2,), np.nan); G[..., 0] = F; return G[..., 0]
    if form == 4: F.flags.writeable = False
    if form == 5: F = F.astype('f'); return F
    return F

# ------------------------------------------------------------ C01
@st.composite
def cases01(draw):
    c = draw(gen.nurbs())
    gen.crowd(draw, c)
    c['u'] = draw(params(len(c['p'])))
    c['f'] = draw(st.sampled_from(['none', 'none', 'stored', 'scalar', 1, 3, 5, 12]))
    c['via'] = draw(st.sampled_from(['call', 'call', 'evaluate']))
    if draw(st.integers(0, 24)) == 0: c['many'] = draw(st.integers(1, 3))
    bad = draw(st.integers(0, 7))
    if bad == 0:
        c['bad'] = [draw(st.integers(0, 2)), draw(st.sampled_from(['nan', 'below', 'above', 'inf', '-inf', 'far', 'after'])),
                    draw(st.booleans())]
    return c

def bad_value(kind, p, U):
    a, b = U[p], U[len(U) - p - 1]
    return {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'below': np.nextafter(a, -np.inf),
            'above': np.nextafter(b, np.inf), 'far': a - 10 * (b - a), 'after': b + 0.25 * (b - a)}[kind]

def check01(c, rec):
    if c.get('crowd'): rec.cls('knots crowded towards zero', any(len(set(U)) > 2 and U[0] == 0 for U in c['k']))
    d = len(c['p'])
    nrb = gen.make(c, NURBS)
    R = gen.ref_of(c)
    args, vals, scal = resolve(c, c['u'])
    vals = fill(nrb, c, vals, 'default parameters')
    if not all(inside(p, U, v) for p, U, v in zip(c['p'], c['k'], vals)):
        return   # averages of the outer knots can lie outside the domain of an unclamped axis
    before = snap(nrb)
    kw = dict(zip('uvw', args))
    f = c['f']
    if f == 'stored' and not c['nf']: f = 'none'
    want = R(*vals); sc = R.scale()
    nf = R.nf
    if f not in ('none', 'stored'):
        F = user_fields(c, f)
        F2 = F[..., None] if f == 'scalar' else F
        W = R.A[..., 3:4]
        RF = ref.Ref(c['k'], np.concatenate([R.A[..., :4], F2 * W], axis=-1))
        wantF = RF(*vals)[..., 3:]; scF = RF.scale()[3:]
    else:
        wantF = want[..., 3:]; scF = sc[3:]
    wantC = want[..., :3]; scC = sc[:3]
    T = 1e-11
    if 'bad' in c:
        ax = c['bad'][0] % d
        x = bad_value(c['bad'][1], c['p'][ax], c['k'][ax])
        a = x
        if c['bad'][2]: a = np.array([gen.value(['f', 20], c['p'][ax], c['k'][ax]), x])
        bk = dict(kw); bk['uvw'[ax]] = a
        raises(lambda: nrb(**bk), 'a parameter outside the domain (%r)' % x)
        raises(lambda: nrb.evaluate(**bk), 'a parameter outside the domain (%r)' % x)
        rec.cls('outside the domain')
    if c['via'] == 'call':
        if f == 'none': got = nrb(**kw); gF = None
        elif f == 'stored': got, gF = nrb(fields=True, **kw)
        else: got, gF = nrb(fields=F, **kw)
        close(got, drop(wantC, d, scal), T * scC, 'value', rec, 'geometry')
        if gF is not None:
            close(gF, drop(wantF, d, scal), T * scF, 'field value', rec, 'fields')
    else:
        if f in ('none', 'stored'):
            if nf: gF = nrb.evaluate(**kw)
            else: gF = nrb.evaluate(fields=nrb.points, **kw); wantF = wantC; scF = scC
        else: gF = nrb.evaluate(fields=F, **kw)
        w = drop(wantF, d, scal)
        if f == 'scalar': w = w[..., 0]
        close(gF, w, T * (scF if f != 'scalar' else scF[0]), 'field value', rec, 'fields')
    unchanged(nrb, before, 'evaluation changed the object')
    n = sum(len(v) for v in vals)
    onb = any(t in U for U, v in zip(c['k'], vals) for t in v)
    rec.cls('dim%d' % d); rec.cls('at a knot', onb); rec.cls('rational', c['rat'] > 0)
    rec.cls('unclamped', any(not (gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1)) for p, U in zip(c['p'], c['k'])))
    rec.cls('with fields', f != 'none'); rec.cls('scalar parameter', any(scal)); rec.cls("default parameters", any(a is None for a in args))
    rec.nontrivial(c['rat'] > 0 and max(c['p']) > 1 and any(len(set(U[p:len(U) - p])) > 2 for p, U in zip(c['p'], c['k'])))

register('C01', strategy=cases01, check=check01)

# ------------------------------------------------------------ C02
@st.composite
def cases02(draw):
    o = draw(st.integers(1, 4))
    c = draw(gen.nurbs(dims=(1, 1, 2, 2, 3) if o < 4 else (1, 1, 2, 2, 2, 3), mags=False))
    c['u'] = draw(params(len(c['p']), near=False))
    if len(c['p']) == 3: c['u'] = [s[:2] if isinstance(s, list) and s and isinstance(s[0], list) else s for s in c['u']]
    c['o'] = o
    c['f'] = draw(st.sampled_from(['default', 'default', 'points', 'scalar', 1, 2, 4]))
    c['via'] = draw(st.integers(0, 1))
    c['map'] = draw(st.sampled_from([0, 0, 0, 1]))
    if o < 3 and draw(st.integers(0, 39)) == 0: c['many'] = draw(st.integers(1, 2))
    return c

def check02(c, rec):
    d = len(c['p'])
    nrb = gen.make(c, NURBS)
    R = gen.ref_of(c)
    args, vals, scal = resolve(c, c['u'])
    vals = fill(nrb, c, vals, 'default parameters')
    if not all(inside(p, U, v) for p, U, v in zip(c['p'], c['k'], vals)): return
    o = c['o']
    kw = dict(zip('uvw', args))
    f = c['f']
    sq = False
    if f == 'default':
        F = None; FV = R.fields() if R.nf else R.points()
    elif f == 'points':
        F = np.array(nrb.points); FV = R.points()
    else:
        F = user_fields(c, f); sq = f == 'scalar'
        FV = np.asarray(F[..., None] if sq else F, dtype=np.longdouble)
    if c['map'] and d == 3: kw2 = kw
    before = snap(nrb)
    def call(order, mapped=False):
        k = dict(kw)
        if F is not None: k['fields'] = F
        if mapped: k['mapped'] = (True, 1, np.True_, True)[c['net'] % 4]
        elif c['net'] % 3 == 0: k['mapped'] = (False, 0, None, np.False_)[c['net'] % 4]
        if c['net'] % 5 == 0: order = np.int64(order)
        if c['via'] == 0 or order > 2: return nrb.derivative(order, **k)
        return (nrb.gradient if order == 1 else nrb.hessian)(**k)
    if c['map'] and o > 1:
        rec.cls('unsupported mapped')
        try: got = call(o, True)
        except Exception: pass
        else:
            # an implementation that supports it has to be right; only affine maps are simple enough to tell
            need(np.asarray(got).shape[-1] == d, 'mapped derivative of order %d has shape %r', o, np.asarray(got).shape)
        unchanged(nrb, before, 'differentiation changed the object')
        return
    V, B = R.derivs(o, vals, FV)
    want = drop(V, d, scal); bnd = drop(B, d, scal)
    if sq:
        want = want.reshape(want.shape[:want.ndim - o - 1] + want.shape[want.ndim - o:])
        bnd = bnd.reshape(want.shape)
    tol = 1e-10 * np.maximum(bnd, np.abs(want)) + 1e-300
    if not c['map']:
        got = call(o)
        if d == 1 and o == 4 and listed('C02', 'curve-fourth-derivative'):
            # recorded: exactly the values with third basis derivatives in place of fourth
            VK, BK = R.derivs(o, vals, FV, third_for_fourth=True)
            wk = drop(VK, d, scal).reshape(want.shape); bk = drop(BK, d, scal).reshape(want.shape)
            try:
                close(got, wk, 1e-10 * np.maximum(bk, np.abs(wk)) + 1e-300, '', rec, 'known')
                rec.cls('known finding (fourth derivative of a curve)')
                return
            except Violation: pass
        close(got, want, tol, 'derivative of order %d' % o, rec, 'order %d' % o)
        rec.nontrivial(c['rat'] > 0 and max(c['p']) > o)
    else:
        got = np.asarray(call(1, True), dtype=np.longdouble)
        need(got.shape == want.shape, 'mapped gradient has shape %r instead of %r', got.shape, want.shape)
        X, XB = R.derivs(1, vals, R.points()[..., :d])
        J = drop(X, d, scal); JB = drop(XB, d, scal)     # (..., coordinate, parameter)
        w2 = want if not sq else want[..., None, :]
        g2 = got if not sq else got[..., None, :]
        b2 = bnd if not sq else bnd[..., None, :]
        Jf = J.reshape((-1, d, d)).astype('d'); n = 0
        w2 = w2.reshape((len(Jf), -1, d)); g2 = g2.reshape((len(Jf), -1, d)); b2 = b2.reshape((len(Jf), -1, d))
        JBf = JB.reshape((-1, d, d))
        for k in range(len(Jf)):
            s = np.linalg.svd(Jf[k], compute_uv=False)
            if not s[-1] > 1e-3 * max(s[0], float(JBf[k].max()) * 1e-3): continue
            n += 1
            cond = s[0] / s[-1]
            back = g2[k] @ J.reshape((-1, d, d))[k]
            t = 1e-10 * cond ** 2 * (b2[k].max() + np.abs(g2[k]).max() * JBf[k].max()) + 1e-300
            close(back, w2[k], t, 'mapped gradient times Jacobian', rec, 'mapped')
        rec.cls('mapped gradient', n > 0)
        rec.nontrivial(n > 0)
    unchanged(nrb, before, 'differentiation changed the object')
    rec.cls('order %d' % o); rec.cls('dim%d' % d); rec.cls('rational', c['rat'] > 0); rec.cls('scalar field', sq)

_q = {'p': [4], 'k': [[0.0] * 5 + [1.0] * 5], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 7}
register('C02', strategy=cases02, check=check02, regress=[
    dict(_q, u=[['f', 20]], o=4, f='default', via=0, map=0),
    dict(_q, u=[['f', 20]], o=2, f='default', via=1, map=1),
    dict(_q, u=[['f', 20]], o=3, f='default', via=0, map=1),
    dict(_q, u=[['f', 20]], o=4, f='default', via=0, map=1)])
