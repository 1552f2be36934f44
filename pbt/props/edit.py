"""C03-C08, C10, C30: operations that re-describe an object."""
import copy
import numpy as np
from hypcompat import st
import gen, ref
from core import register, need, close, same, raises, Violation
from sut import (NURBS, transform, valid, same_map, knots_equal, snap, unchanged, evaluate)

AX = st.integers(0, 2)

def ax_of(c, i): return i % len(c['p'])

def signed(i, d, neg): return i - d if neg else i

def others(nrb, s, axis, msg):
    for j, (a, b) in enumerate(zip(nrb.knots, s[0])):
        if j != axis: same(a, b, '%s: knots of axis %d' % (msg, j))

def flags(c, rec):
    rec.cls('dim%d' % len(c['p'])); rec.cls('rational', c['rat'] > 0); rec.cls('fields', c['nf'] > 0)
    rec.cls('unclamped', any(not (gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1)) for p, U in zip(c['p'], c['k'])))

def interior(p, U):
    a, b = U[p], U[len(U) - p - 1]
    return [u for u in U if a < u < b]

# ------------------------------------------------------------ C03
@st.composite
def cases03(draw):
    c = draw(gen.nurbs())
    gen.crowd(draw, c)
    c['ax'] = draw(AX); c['neg'] = draw(st.booleans())
    if draw(st.booleans()):
        c['op'] = 'insert'; c['t'] = draw(gen.tokens()); c['n'] = draw(st.sampled_from([1, 1, 2, 3, 4, 0, 'none', 'default']))
    else:
        c['op'] = 'refine'
        c['t'] = [[draw(gen.tokens()), draw(st.integers(1, 4))] for _ in range(draw(st.integers(0, 6)))]
        c['perm'] = draw(st.integers(0, 1000)); c['as'] = draw(st.sampled_from(['list', 'array', 'none'])) if not c['t'] else draw(st.sampled_from(['list', 'array', 'tuple']))
    c['bad'] = draw(st.sampled_from(['', '', 'mult', 'below', 'above', 'nan']))
    if len(c['p']) == 1 and c['op'] == 'refine' and draw(st.integers(0, 7)) == 0: c['many'] = draw(st.integers(20, 300)); c['as'] = 'array'
    return c

def room(p, U, x, extra=()):
    """How often x can still be inserted."""
    return max(0, p - min(p, sum(1 for u in U if u == x)) - sum(1 for u in extra if u == x))

def grid_all(p, U, more):
    """Sample points of one axis incl. those in `more`."""
    a, b = U[p], U[len(U) - p - 1]
    xs = set(gen.sample_params(p, U, 2)) | set(x for x in more if a <= x <= b)
    return sorted(xs)

def check03(c, rec):
    if c.get('crowd'): rec.cls('knots crowded towards zero', any(len(set(U)) > 2 and U[0] == 0 for U in c['k']))
    d = len(c['p']); ax = ax_of(c, c['ax']); p, U = c['p'][ax], c['k'][ax]
    nrb = gen.make(c, NURBS); R = gen.ref_of(c)
    s = snap(nrb)
    sax = signed(ax, d, c['neg'])
    if c['op'] == 'insert':
        x = gen.value(c['t'], p, U); r = room(p, U, x)
        n = c['n']
        if n == 'none': arg, n = None, r
        elif n == 'default' and r > 0: n = 1
        else: arg = n = min(1 if n == 'default' else n, r)
        new = [x] * n
        ret = nrb.insert(sax, x) if c['n'] == 'default' and r > 0 else nrb.insert(sax, x, arg) if c['net'] % 2 else nrb.insert(sax, x, times=arg)
        if c['bad'] == 'mult': bad = lambda: nrb.insert(ax, x, r - n + 1)
    else:
        new = []
        for tok, m in c['t']:
            x = gen.value(tok, p, U)
            new += [x] * min(m, room(p, U, x, new))
        if c.get('many'):
            a, b = U[p], U[len(U) - p - 1]
            for r in gen.unit(c['perm'], (c['many'],)).tolist():
                x = a + (b - a) * r
                if a <= x <= b and room(p, U, x, new): new.append(x)
        arr = [new[i] for i in np.argsort(gen.splitmix(c['perm'], len(new)))]
        arg = {'list': list, 'array': np.array, 'tuple': tuple, 'none': lambda a: None}[c['as']](arr)
        keep = copy.deepcopy(arg)
        ret = nrb.refine(sax, arg)
        if c['as'] == 'array': same(arg, keep, 'refine: the values passed in')
        else: need(arg == keep, 'refine changed the values passed in')
        if c['bad'] == 'mult':
            x = new[0] if new else gen.value(['f', 21], p, U)
            bad = lambda: nrb.refine(ax, [x] * (room(p, list(U) + new, x) + 1))
    need(ret is nrb, 'the call does not return the object')
    msg = '%s of %r' % (c['op'], sorted(new)) if len(new) < 30 else 'refine with %d values' % len(new)
    valid(nrb, msg, d, R.nf)
    knots_equal(nrb.knots[ax], sorted(list(U) + new), msg)
    others(nrb, s, ax, msg)
    need(tuple(nrb.degree) == tuple(c['p']), '%s: degree changed', msg)
    params = gen.grid_for(c['p'], c['k'])
    params[ax] = grid_all(p, U, new)
    same_map(nrb, R, msg, params, rtol=1e-10, rec=rec)
    rec.cls('many values', len(new) > 60)
    s2 = snap(nrb)
    if c['bad'] == 'mult':
        raises(bad, 'raising a multiplicity above the degree (%s)' % c['op'])
        rec.cls('too many')
    elif c['bad']:
        a, b = U[p], U[len(U) - p - 1]
        x = {'below': np.nextafter(a, -np.inf), 'above': np.nextafter(b, np.inf), 'nan': np.nan}[c['bad']]
        raises(lambda: nrb.insert(ax, x), 'inserting a knot outside the domain')
        raises(lambda: nrb.refine(ax, [x]), 'refining with a value outside the domain')
        raises(lambda: nrb.refine(ax, [0.5 * (a + b), x]), 'refining with a value outside the domain')
        rec.cls('outside the domain')
    unchanged(nrb, s2, 'a rejected request')
    flags(c, rec); rec.cls(c['op']); rec.cls('several values', len(set(new)) > 1)
    rec.cls('at existing knots', any(x in U for x in new))
    near = any(x not in U and min(abs(x - u) for u in U) < 1e-12 * (1 + abs(x)) for x in new)
    rec.cls('next to existing knots', near)
    rec.nontrivial(len(new) > 1 or any(x in U for x in new))

register('C03', strategy=cases03, check=check03, regress=[
    # 0.7-0.4 = 0.29999999999999993 next to the knot 0.3
    {'p': [2], 'k': [[0, 0, 0, 0.3, 1, 1, 1]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 5, 'ax': 0, 'neg': False,
     'op': 'insert', 't': ['b', 1, -1], 'n': 2, 'bad': ''},
    # end of the domain on an unclamped axis
    {'p': [3], 'k': [[-3, -2, -1, 0, 1, 2, 3, 3, 4, 5]], 'rat': 1, 'nf': 1, 'mag': 0, 'net': 5, 'ax': 0, 'neg': False,
     'op': 'insert', 't': ['f', 64], 'n': 1, 'bad': ''},
    {'p': [3], 'k': [[-3, -2, -1, 0, 1, 2, 3, 4, 5]], 'rat': 1, 'nf': 1, 'mag': 0, 'net': 5, 'ax': 0, 'neg': False,
     'op': 'insert', 't': ['f', 64], 'n': 2, 'bad': ''},
    {'p': [2], 'k': [[0, 0, 0, 0.5, 1, 1, 1]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 5, 'ax': 0, 'neg': False,
     'op': 'refine', 't': [[['f', 48], 1], [['f', 16], 1]], 'perm': 3, 'as': 'array', 'bad': ''},
    {'p': [2], 'k': [[0, 0, 0, 0.5, 1, 1, 1]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 5, 'ax': 0, 'neg': False,
     'op': 'refine', 't': [[['f', 48], 1], [['f', 16], 1]], 'perm': 4, 'as': 'array', 'bad': ''}])

# ------------------------------------------------------------ C04
@st.composite
def cases04(draw):
    c = draw(gen.nurbs())
    c['ax'] = draw(AX); c['neg'] = draw(st.booleans()); c['t'] = draw(st.sampled_from([1, 1, 2, 3, 4, 0, 'none', 'np', 'float', 'default']))
    if len(c['p']) == 1 and draw(st.integers(0, 9)) == 0:
        # many degrees at once; a single span of high degree
        c['t'] = draw(st.integers(5, 12))
        if c['p'][0] > 5 or draw(st.integers(0, 2)) == 0:
            p = draw(st.sampled_from([1, 2, 7, 12, 16, 24, 30])); a, b = gen.domains(draw)
            c['p'] = [p]; c['k'] = [[a] * (p + 1) + [b] * (p + 1)]; c['t'] = draw(st.integers(1, 40 - p))
    return c

def check04(c, rec):
    d = len(c['p']); ax = ax_of(c, c['ax']); p, U = c['p'][ax], c['k'][ax]
    nrb = gen.make(c, NURBS); R = gen.ref_of(c); s = snap(nrb)
    t = c['t']
    arg, t = {'none': (None, 0), 'np': (np.int32(1), 1), 'float': (2.0, 2), 'default': (1, 1)}.get(t, (t, t))
    ret = nrb.elevate(signed(ax, d, c['neg']), arg) if c['t'] != 'default' else nrb.elevate(signed(ax, d, c['neg']))
    need(ret is nrb, 'elevate does not return the object')
    msg = 'elevate by %d' % t
    valid(nrb, msg, d, R.nf)
    want = list(c['p']); want[ax] += t
    need(tuple(nrb.degree) == tuple(want), '%s: degree %r instead of %r', msg, tuple(nrb.degree), tuple(want))
    others(nrb, s, ax, msg)
    V = np.asarray(nrb.knots[ax])
    if t == 0: same(V, U, msg)
    need(V[p + t] == U[p] and V[-p - t - 1] == U[len(U) - p - 1], '%s: domain [%r,%r]', msg, V[p + t], V[-p - t - 1])
    inner = interior(p, U)
    knots_equal(interior(p + t, V.tolist()), sorted(inner + [u for u in set(inner) for _ in range(t)]), msg + ', interior knots')
    if gen.is_clamped(p, U, 0) and gen.is_clamped(p, U, 1):
        a, b = U[p], U[len(U) - p - 1]
        need(V.tolist().count(a) == p + t + 1 and V.tolist().count(b) == p + t + 1, '%s: end multiplicities %r', msg, V.tolist())
    # removing many knots of a high degree is ill-conditioned
    same_map(nrb, R, msg, gen.grid_for(c['p'], c['k']), rtol=1e-8 * 10.0 ** max(0, p - 8) if inner else 1e-8, rec=rec)
    flags(c, rec); rec.cls('by %s' % (t if t < 5 else '5 or more')); rec.cls('degree 10 and up', c['p'][0] >= 10); rec.cls('several spans', len(set(inner)) > 0)
    rec.nontrivial(t > 0 and len(inner) > 0)

register('C04', strategy=cases04, check=check04, regress=[
    {'p': [2], 'k': [[-2, -1, 0, 1, 2, 3, 4]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 9, 'ax': 0, 'neg': False, 't': 1},
    {'p': [10], 'k': [[0.0] * 11 + [1.0, 2.0, 2.0, 2.0] + [3.0] * 11], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 9, 'ax': 0, 'neg': False, 't': 1},
    {'p': [28], 'k': [[0.0] * 29 + [1.0] * 29], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 9, 'ax': 0, 'neg': False, 't': 5},
    {'p': [2], 'k': [[-0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, 1.25, 1.5]], 'rat': 1, 'nf': 1, 'mag': 0, 'net': 9, 'ax': 0, 'neg': False, 't': 2},
    {'p': [3, 2], 'k': [[-3, -2, -1, 0, 1, 2, 3, 4], [0, 0, 0, 1, 1, 1]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 9, 'ax': 0, 'neg': False, 't': 1}])

# ------------------------------------------------------------ C05
@st.composite
def cases05(draw):
    mode = draw(st.sampled_from(['redundant', 'redundant', 'any', 'any', 'default', 'almost', 'almost', 'flat']))
    c = draw(gen.nurbs(mags=mode != 'redundant', ends=draw(st.sampled_from(['clamped', 'any'])), rat=draw(st.sampled_from([0, 1, 2, 2])) if mode != 'redundant' else draw(st.integers(0, 1))))
    many = mode == 'redundant' and not draw(st.integers(0, 5))
    if many: c = draw(gen.nurbs(dims=(1, 1, 2), pmin=4, pmax=8, maxspans=2, ends='clamped', mags=False, rat=draw(st.integers(0, 1))))
    c['mode'] = mode; c['ax'] = draw(AX); c['neg'] = draw(st.booleans())
    c['t'] = draw(gen.tokens(near=False)) if mode == 'redundant' or draw(st.integers(0, 5)) == 0 else ['b', draw(st.integers(1, 4)), 0]
    c['n'] = draw(st.integers(1, 4) if not many else st.integers(4, 8))
    c['rem'] = draw(st.sampled_from([5, 6, 'none'] if many else [1, 2, 3, 6, 'none', 0] + ['default'] * 2 * (mode == 'redundant')))
    c['dev'] = draw(st.sampled_from([1e-6, 1e-3, 0.03, 0.3, 1.0, 4.0]))
    if mode in ('almost', 'any', 'default'): c['ws'] = draw(st.sampled_from([1, 1, 0.03, 0.2, 20]))
    if mode == 'almost': c['mag'] = draw(st.sampled_from([0, 0, 1, 1, 2])); c['off'] = draw(st.sampled_from([0.3, 1, 3, 10, 30])); c['t'] = ['f', draw(st.integers(1, 63))]
    return c

def dist_ok(nrb, R, params, bound, msg):
    A = R(*params)[..., :3]; B = ref.of(nrb)(*params)[..., :3]
    D = np.sqrt(((A - B) ** 2).sum(-1)).max()
    tiny = 1e-9 * R.scale()[0]
    need(D <= bound + tiny, '%s: a point moves by %.4g, more than %.4g', msg, float(D), float(bound))
    return float(D)

def flat05(c, rec):
    """All control points are the same: every interior knot is redundant, and no other knot may go."""
    d = len(c['p']); ax = ax_of(c, c['ax']); p, U = c['p'][ax], list(c['k'][ax]); a, b = U[p], U[len(U) - p - 1]
    shp = gen.shape_of(c); pt = gen.unit(c['net'], (3,)) * 8 - 4
    nrb = NURBS([np.array(k) for k in c['k']], np.zeros(shp + (3,)) + pt, fields=np.ones(shp + (1,)) if c['nf'] else None)
    s = snap(nrb); x = [a, b][c['n'] % 2] if c['rem'] in (0, 6) else gen.value(c['t'], p, U)
    have = min(p, U.count(x)) if a < x < b else 0
    if have and max((b - x) / (x - a), (x - a) / (b - x)) ** p > 1e5: return     # rounding errors grow on the way
    kw = {} if c['rem'] == 'default' else {'times': None if c['rem'] == 'none' else c['rem']}
    if c['rem'] == 0: kw = {'times': None}
    gone = min(have, 1 if c['rem'] == 'default' else kw['times'] or (0 if kw['times'] == 0 else p))
    nrb.remove(ax - d if c['neg'] else ax, x, deviation=c['dev'] if c['net'] % 2 else 1e-9, **kw)
    for _ in range(gone): U.remove(x)
    knots_equal(nrb.knots[ax], U, 'remove of %r from an object whose control points are all the same' % x)
    others(nrb, s, ax, 'remove'); valid(nrb, 'remove', d, 1 if c['nf'] else 0)
    close(nrb.points, np.zeros(nrb.shape + (3,)) + pt, 1e-8, 'remove: points')
    rec.cls('flat'); rec.cls('flat, end of the domain', x in (a, b)); rec.nontrivial(have > 0)

def check05(c, rec):
    if c['mode'] == 'flat': return flat05(c, rec)
    d = len(c['p']); ax = ax_of(c, c['ax']); p, U = c['p'][ax], c['k'][ax]
    nrb = gen.make(c, NURBS); R = gen.ref_of(c)
    if c.get('ws', 1) != 1: nrb.array[...] *= c['ws']; R = ref.of(nrb); rec.cls('weights scaled')        # the same map
    x = gen.value(c['t'], p, U)
    a, b = U[p], U[len(U) - p - 1]
    sax = signed(ax, d, c['neg'])
    params = gen.grid_for(c['p'], c['k'])
    params[ax] = sorted(set(gen.sample_params(p, U, 4)) | {x})
    flags(c, rec); rec.cls(c['mode'])
    if c['mode'] == 'almost':
        # a knot which would be redundant if one row of control points were not moved
        if not room(p, U, x): return
        nrb.insert(ax, x)
        k = ref.spanof(p, U, x); dev = c['dev'] * gen.MAG[c['mag']]
        A = np.moveaxis(nrb.array, ax, 0)
        dl = dev * c['off'] * (gen.unit(c['net'] + 3, (3,)) - 0.5)
        row = A[k - p + c['net'] % (p + 1)]
        if R.nf and c['net'] // 9 % 3 == 0:
            # ... or if the fields did not need it
            row[..., 4:] += dl[0] * row[..., 3:4]; rec.cls('almost, but for the fields')
        elif c['net'] // 9 % 3 == 1 and c['rat']:
            # ... or if a weight were another one
            row[..., 3] *= 1 + np.clip(dl[0] / (1 + np.sqrt((row[..., :3] ** 2 / row[..., 3:4] ** 2).sum(-1)).max()), -0.5, 0.5); rec.cls('almost, but for the weights')
        else: row[..., :3] += dl * row[..., 3:4]
        U = nrb.knots[ax].tolist(); R = ref.of(nrb)
    if c['mode'] == 'redundant':
        if not a < x < b: return
        n = min(c['n'], room(p, U, x))
        if not n: return
        s = snap(nrb)
        nrb.insert(ax, x, n)
        # how much noise the insertion left, relative to the tolerance of the removal
        gaps = [v - u for u, v in zip(sorted(set(U + [x]))[:-1], sorted(set(U + [x]))[1:])]
        mild = max(gaps) <= (12 if p < 6 else 5) * min(gaps) and c['rat'] in (0, 1) and 'big' not in c
        dev = 1e-6 * float(R.scale()[0] + 1)
        arg = None if c['rem'] == 'none' else 1 if c['rem'] == 'default' else c['rem']
        m = min(n + U.count(x), p) if arg is None else arg
        if not mild: return
        ask = min(n, m) if arg is not None else n
        if c['rem'] == 'default' and c['net'] % 3: ret = nrb.remove(sax, x)
        elif c['rem'] == 'default': ret = nrb.remove(sax, x, deviation=dev)
        else: ret = nrb.remove(sax, x, arg, dev)
        need(ret is nrb, 'remove does not return the object')
        valid(nrb, 'remove', d, R.nf)
        left = [v for v in sorted(U + [x] * n)]
        V = nrb.knots[ax].tolist()
        gone = len(left) - len(V)
        need(gone >= ask, 'only %d of %d redundant copies of %r removed', gone, ask, x)
        need(gone <= min(n + U.count(x), p if arg is None else arg), 'remove took %d copies of %r', gone, x)
        for _ in range(gone): left.remove(x)
        knots_equal(V, left, 'remove')
        others(nrb, s, ax, 'remove')
        D = dist_ok(nrb, R, params, gone * dev, 'remove')
        if gone == n:
            close(nrb.array, s[1], 1e-6 * (1 + np.abs(s[1]).max()), 'the object before the insertion', rec, 'recovered')
            same_map(nrb, R, 'remove of a redundant knot', params, rtol=1e-6, rec=rec, name='redundant')
        rec.cls('many copies gone', gone > 4); rec.nontrivial(n > 0)
    else:
        U0 = list(U); s = snap(nrb)
        if c['mode'] == 'default':
            arg, dev = 1, None
            nrb.remove(sax, x); dev = 1e-9
        else:
            arg = None if c['rem'] == 'none' else c['rem']
            dev = c['dev'] * gen.MAG[c['mag']]
            nrb.remove(sax, x, times=arg, deviation=dev)
        valid(nrb, 'remove', d, R.nf)
        V = nrb.knots[ax].tolist()
        gone = len(U0) - len(V)
        have = U0.count(x) if a < x < b else 0
        need(0 <= gone <= min(have, 99 if arg is None else arg), 'remove took %d of %d copies of %r (asked for %r)', gone, have, x, arg)
        for _ in range(gone): U0.remove(x)
        knots_equal(V, U0, 'remove')
        others(nrb, s, ax, 'remove')
        if gone == 0: unchanged(nrb, s, 'nothing was removed')
        else:
            bound = gone * dev * (1 + gone * dev)
            D = dist_ok(nrb, R, params, bound, 'remove with deviation %g (%d removed)' % (dev, gone))
            rec.err('moved/allowed', D / bound)
            if R.nf:
                # the same tolerance holds for the homogeneous fields
                Pmax = np.sqrt((s[1][..., :3] ** 2 / s[1][..., 3:4] ** 2).sum(-1)).max(); Fmax = np.abs(s[1][..., 4:] / s[1][..., 3:4]).max()
                T = gone * dev / (1 + Pmax)
                if T < 0.5:
                    DF = np.abs(R(*params)[..., 3:] - ref.of(nrb)(*params)[..., 3:]).max(); T = T * (1 + Fmax) / (1 - T)
                    need(DF <= 1.5 * T + 1e-9 * (1 + Fmax), 'remove with deviation %g: a field changes by %.4g, more than %.4g', dev, float(DF), float(T))
                    rec.err('fields moved/allowed', DF / T)
        rec.cls('removed', gone > 0); rec.cls('refused', have > 0 and gone == 0)
        rec.nontrivial(have > 0)

register('C05', strategy=cases05, check=check05, regress=[])

# ------------------------------------------------------------ C06
@st.composite
def cases06(draw):
    c = draw(gen.nurbs(ends=draw(st.sampled_from(['any', 'any', 'clamped', 'unclamped']))))
    c['ax'] = draw(AX); c['neg'] = draw(st.booleans())
    c['op'] = draw(st.sampled_from(['clamp', 'unclamp', 'unclamp']))
    c['side'] = draw(st.sampled_from([None, None, 0, 1])); c['C'] = draw(st.sampled_from([None, 0, 1, 2, 3, 4]))
    return c

def check06(c, rec):
    d = len(c['p']); ax = ax_of(c, c['ax']); p, U = c['p'][ax], c['k'][ax]
    nrb = gen.make(c, NURBS); R = gen.ref_of(c); s = snap(nrb)
    a, b = U[p], U[len(U) - p - 1]
    sax = signed(ax, d, c['neg']); side = c['side']
    sides = (0, 1) if side is None else (side,)
    # functions without support in the domain go
    void = [sum(1 for u in U[p + 1:-p - 1] if u == a) if 0 in sides or c['op'] == 'unclamp' else 0,
            sum(1 for u in U[p + 1:-p - 1] if u == b) if 1 in sides or c['op'] == 'unclamp' else 0]
    U = U[void[0]:len(U) - void[1]]
    n = len(U) - p - 2
    rec.cls('copies inside of an end', sum(void) > 0)
    C = None if c['C'] is None else c['C'] % p
    if c['op'] == 'clamp': ret = nrb.clamp(sax, side)
    else: ret = nrb.unclamp(sax, side, C)
    need(ret is nrb, 'the call does not return the object')
    msg = '%s side %r continuity %r' % (c['op'], side, C)
    valid(nrb, msg, d, R.nf)
    shape = list(s[1].shape[:-1]); shape[ax] -= sum(void)
    need(tuple(nrb.shape) == tuple(shape) and tuple(nrb.degree) == tuple(c['p']), '%s: shape or degree changed', msg)
    others(nrb, s, ax, msg)
    V = nrb.knots[ax].tolist()
    need(V[p] == a and V[n + 1] == b, '%s: domain [%r,%r]', msg, V[p], V[n + 1])
    need(interior(p, V) == interior(p, U), '%s: interior knots changed', msg)
    CC = p - 1 if C is None else C
    for sd in (0, 1):
        end = V[:p + 1] if sd == 0 else V[n + 1:]
        e = a if sd == 0 else b
        if sd not in sides:
            same(end, U[:p + 1] if sd == 0 else U[n + 1:], msg + ': knots of the other end')
        elif c['op'] == 'clamp':
            need(end == [e] * (p + 1), '%s: end knots %r', msg, end)
        else:
            need(V.count(e) == p - CC, '%s: end multiplicity %d instead of %d: %r', msg, V.count(e), p - CC, V)
            T = b - a; tol = 1e-13 * (abs(a) + abs(b) + T) * 4
            cyc = [a] * (p - CC) + interior(p, U)      # one period of the knots
            for i in range(CC + 1):
                # counted outwards from the end
                if sd == 0:
                    q = -1 - i; x = V[CC - i]
                else:
                    q = len(cyc) + (p - CC) + i; x = V[n + p + 1 - CC + i]
                y = cyc[q % len(cyc)] + (q // len(cyc)) * T
                need(abs(x - y) <= tol * (1 + abs(q // len(cyc))), '%s: outer knot %r is not the periodic one %r: %r', msg, x, y, V)
    same_map(nrb, R, msg, gen.grid_for(c['p'], c['k']), rtol=1e-7 if c['op'] == 'unclamp' else 1e-10, rec=rec, name=c['op'])
    if c['op'] == 'unclamp' and (side is None or not sum(void)):
        cl = gen.make(c, NURBS); cl.clamp(ax, side)
        nrb.clamp(ax, side)
        knots_equal(nrb.knots[ax], cl.knots[ax], msg + ', then clamp')
        close(nrb.array, cl.array, 1e-7 * (1e-300 + np.abs(cl.array).max()), msg + ', then clamp', rec, 'clamped again')
    flags(c, rec); rec.cls(c['op']); rec.cls('one side', side is not None)
    rec.nontrivial(p > 1 and (c['op'] == 'unclamp' or any(not gen.is_clamped(p, U, q) for q in sides)))

register('C06', strategy=cases06, check=check06)

# ------------------------------------------------------------ C07
@st.composite
def cases07(draw):
    c = draw(gen.nurbs())
    gen.crowd(draw, c)
    c['ax'] = draw(AX); c['neg'] = draw(st.booleans())
    c['op'] = draw(st.sampled_from(['slice', 'slice', 'extract', 'boundary', 'point']))
    c['s'] = draw(st.one_of(st.none(), gen.tokens(), gen.tokens())); c['e'] = draw(st.one_of(st.none(), gen.tokens(), gen.tokens()))
    c['side'] = draw(st.integers(0, 1))
    c['pt'] = [draw(gen.tokens()) for _ in range(3)]
    c['bad'] = draw(st.sampled_from(['', '', '', 'below', 'above', 'empty', 'reversed', 'nan']))
    return c

def check07(c, rec):
    if c.get('crowd'): rec.cls('knots crowded towards zero', any(len(set(U)) > 2 and U[0] == 0 for U in c['k']))
    d = len(c['p']); ax = ax_of(c, c['ax']); p, U = c['p'][ax], c['k'][ax]
    nrb = gen.make(c, NURBS); R = gen.ref_of(c); s = snap(nrb)
    a, b = U[p], U[len(U) - p - 1]
    sax = signed(ax, d, c['neg'])
    op = c['op']
    flags(c, rec); rec.cls(op)
    gp = gen.grid_for(c['p'], c['k'])
    if op == 'slice':
        x = None if c['s'] is None else gen.value(c['s'], p, U)
        y = None if c['e'] is None else gen.value(c['e'], p, U)
        x0 = a if x is None else x; y0 = b if y is None else y
        if x0 > y0: x0, y0 = y0, x0; x, y = x0, y0
        if x0 == y0:
            raises(lambda: nrb.slice(sax, x0, y0), 'an empty slice'); rec.cls('empty')
        else:
            out = nrb.slice(sax, x, y)
            msg = 'slice [%r,%r]' % (x0, y0)
            need(out is not nrb, '%s returns the object itself', msg)
            valid(out, msg, d, R.nf)
            need(tuple(out.degree) == tuple(c['p']), '%s: degree', msg)
            others(out, s, ax, msg)
            V = out.knots[ax].tolist()
            want = [x0] * (p + 1) + [u for u in U if x0 < u < y0] + [y0] * (p + 1)
            knots_equal(V, want, msg)
            gp[ax] = gen.sample_params(p, want, 2)
            same_map(out, R, msg, gp, rtol=1e-9, rec=rec)
            # the result does not share anything writable with the original
            out.array[...] += 1.0
            rec.nontrivial(x0 > a or y0 < b)
            rec.cls('at knots', x0 in U and y0 in U)
    elif op == 'boundary':
        out = nrb.boundary(sax, c['side'])
        x = a if c['side'] == 0 else b
        msg = 'boundary %d of axis %d' % (c['side'], ax)
        lower(out, R, ax, x, gp, msg, rec)
        rec.nontrivial()
        if c['bad']: raises(lambda: nrb.boundary(ax, 2), 'side 2'); raises(lambda: nrb.boundary(ax, -1), 'side -1')
    elif op == 'extract':
        x = gen.value(c['pt'][0], p, U)
        out = nrb.extract(sax, x)
        msg = 'extract at %r' % x
        lower(out, R, ax, x, gp, msg, rec)
        rec.nontrivial(a < x < b)
    else:
        # all the way down to a point, highest axis first or lowest first
        out = nrb; xs = [None] * d
        order = list(range(d)) if c['neg'] else list(range(d))[::-1]
        alive = list(range(d))
        for i in order:
            xs[i] = gen.value(c['pt'][i], c['p'][i], c['k'][i])
            out = out.extract(alive.index(i), xs[i]); alive.remove(i)
        need(out.dim == 0, 'extracting along every axis leaves dimension %r', out.dim)
        want = R(*[[t] for t in xs]).reshape(-1)
        sc = R.scale()
        close(np.asarray(out()).reshape(-1), want[:3], 1e-9 * sc[:3], 'point', rec, 'point')
        close(np.asarray(out.points).reshape(-1), want[:3], 1e-9 * sc[:3], 'point')
        if R.nf: close(np.asarray(out.fields).reshape(-1), want[3:], 1e-9 * sc[3:], 'fields of a point')
        rec.nontrivial(d > 1)
    unchanged(nrb, s, op + ' changed the object')
    if c['bad'] and op in ('slice', 'extract'):
        mid = 0.5 * (a + b)
        lo, hi = np.nextafter(a, -np.inf), np.nextafter(b, np.inf)
        x, y = {'below': (lo, mid), 'above': (mid, hi), 'empty': (mid, mid), 'reversed': (b, a), 'nan': (np.nan, b)}[c['bad']]
        if op == 'slice': raises(lambda: nrb.slice(ax, x, y), 'slice [%r,%r]' % (x, y))
        else:
            z = {'below': lo, 'above': hi, 'empty': b + (b - a), 'reversed': a - (b - a), 'nan': np.nan}[c['bad']]
            raises(lambda: nrb.extract(ax, z), 'extract at %r' % z)
        rec.cls('rejected')
        unchanged(nrb, s, 'a rejected request')

def lower(out, R, ax, x, gp, msg, rec):
    d = R.dim
    valid(out, msg, d - 1, R.nf)
    keep = [i for i in range(d) if i != ax]
    need(tuple(out.degree) == tuple(R.p[i] for i in keep), '%s: degree', msg)
    for i, k in zip(keep, out.knots): knots_equal(k, np.asarray(R.U[i], dtype='d'), msg)
    full = list(gp); full[ax] = [x]
    want = np.take(R(*full), 0, axis=ax); sc = R.scale()
    rest = [gp[i] for i in keep]
    if d == 1:
        close(np.asarray(out.points).reshape(-1), want[:3], 1e-9 * sc[:3], msg)
        close(np.asarray(out()).reshape(-1), want[:3], 1e-9 * sc[:3], msg)
        if R.nf: close(np.asarray(out.fields).reshape(-1), want[3:], 1e-9 * sc[3:], msg)
    else:
        close(ref.of(out)(*rest), want, 1e-9 * sc, msg, rec, 'extract')
        close(evaluate(out, rest), want, 1e-9 * sc, msg + ' (evaluated by the library)')

register('C07', strategy=cases07, check=check07, regress=[
    {'p': [2], 'k': [[0, 0, 0, 0.3, 1, 1, 1]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 5, 'ax': 0, 'neg': False,
     'op': 'extract', 's': None, 'e': None, 'side': 0, 'pt': [['b', 1, -1]] * 3, 'bad': ''},
    {'p': [3], 'k': [[-3, -2, -1, 0, 1, 2, 3, 3, 4, 5]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 5, 'ax': 0, 'neg': False,
     'op': 'boundary', 's': None, 'e': None, 'side': 1, 'pt': [['f', 1]] * 3, 'bad': ''},
    {'p': [3], 'k': [[-3, -2, -1, 0, 1, 2, 3, 3, 4, 5]], 'rat': 1, 'nf': 0, 'mag': 0, 'net': 5, 'ax': 0, 'neg': False,
     'op': 'slice', 's': ['f', 10], 'e': None, 'side': 1, 'pt': [['f', 1]] * 3, 'bad': ''}])

# ------------------------------------------------------------ C08
@st.composite
def cases08(draw):
    c = draw(gen.nurbs())
    c['op'] = draw(st.sampled_from(['reverse', 'reverse', 'transpose', 'swap', 'remap', 'remap']))
    c['axes'] = draw(st.lists(st.integers(-3, 2), max_size=4)); c['perm'] = draw(st.integers(0, 5)); c['none'] = draw(st.booleans())
    if draw(st.integers(0, 19)) == 7: c['near'] = [draw(st.integers(0, 1)), draw(st.integers(1, 4))]
    c['a'] = draw(st.one_of(st.none(), st.sampled_from([0.0, 0.0, -1.0, 0.1, 1e-3, 100.0, -0.3, 1, 7]), st.integers(-999, 999).map(lambda i: i / 123.0)))
    c['L'] = draw(st.one_of(st.none(), st.sampled_from([1.0, 1.0, 0.7, 2.0, 1e-2, 1e3, 1 / 3.]), st.integers(1, 999).map(lambda i: i / 77.0)))
    if draw(st.integers(0, 11)) == 0: c['a'] = 0.0; c['L'] = draw(st.sampled_from([1e-6, 1e-9, 1e-12, 1e-100, 1e6, 1e9, 1e12]))
    return c

PERMS = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]}

def relabel(R, params_new, back):
    """values of R at back(new params) arranged on the new axes"""
    return back(params_new)

def check08(c, rec):
    d = len(c['p']); nrb = gen.make(c, NURBS); R = gen.ref_of(c); s = snap(nrb)
    op = c['op']; sc = R.scale()
    flags(c, rec); rec.cls(op)
    if c.get('near') and op in ('reverse', 'remap'): return near08(c, rec)
    LDk = [np.asarray(k, dtype=np.longdouble) for k in c['k']]
    if op in ('transpose', 'swap'):
        if op == 'transpose':
            ax = PERMS[d][c['perm'] % len(PERMS[d])]
            if c['none']: ax = tuple(range(d))[::-1]; ret = nrb.transpose()
            else: ret = nrb.transpose(ax if c['net'] % 2 else list(ax))
            inv = tuple(int(i) for i in np.argsort(ax))
            undo = lambda: nrb.transpose(inv)
        else:
            i, j = [(k % d) for k in (c['axes'] + [0, 1])[:2]]
            ax = list(range(d)); ax[i], ax[j] = ax[j], ax[i]; ax = tuple(ax)
            ret = nrb.swap(i - d if c['none'] else i, j)
            undo = lambda: nrb.swap(j, i)
        need(ret is nrb, '%s does not return the object', op)
        valid(nrb, op, d, R.nf)
        for k_, i_ in enumerate(ax): same(nrb.knots[k_], s[0][i_], '%s: knots of axis %d' % (op, k_))
        need(tuple(nrb.degree) == tuple(c['p'][i] for i in ax), '%s: degree', op)
        gp = gen.grid_for(c['p'], c['k'])
        want = np.moveaxis(R(*gp), ax, range(d))
        new = [gp[i] for i in ax]
        close(ref.of(nrb)(*new), want, 1e-12 * sc, op, rec, op)
        close(evaluate(nrb, new), want, 1e-12 * sc, op + ' (evaluated by the library)')
        undo()
        unchanged(nrb, s, op + ' applied twice')
        rec.nontrivial(ax != tuple(range(d)))
    elif op == 'reverse':
        axes = [a % d - (d if a < 0 else 0) for a in c['axes']]
        if c['none']: axes = []
        ret = nrb.reverse(*axes)
        need(ret is nrb, 'reverse does not return the object')
        cnt = [0] * d
        for a in axes: cnt[a % d] += 1
        if not axes: cnt = [1] * d
        valid(nrb, op, d, R.nf)
        for i in range(d):
            p, U = c['p'][i], c['k'][i]; a, b = U[p], U[len(U) - p - 1]
            V = nrb.knots[i].tolist()
            need(V[p] == a and V[len(V) - p - 1] == b, 'reverse: domain [%r,%r] instead of [%r,%r]', V[p], V[len(V) - p - 1], a, b)
            if cnt[i] % 2:
                w = [a + b - np.longdouble(u) for u in U[::-1]]
                close(V, np.array(w), 4e-16 * cnt[i] * 4 * (abs(a) + abs(b) + abs(U[0]) + abs(U[-1])), 'reverse: knots')
                g0 = [U.count(u) for u in sorted(set(U))][::-1]
            else:
                close(V, np.array(U), 4e-16 * (cnt[i] + 1) * 4 * (abs(a) + abs(b) + abs(U[0]) + abs(U[-1])), 'reverse: knots')
                g0 = [U.count(u) for u in sorted(set(U))]
            need([V.count(u) for u in sorted(set(V))] == g0, 'reverse: multiplicities changed: %r', V)
        gp = [gen.sample_params(p, U, 2, (None, 14, 7)[d - 1]) for p, U in zip(c['p'], c['k'])]
        # away from the knots: a knot may move by one unit in the last place
        gp = [offknots(p, U) for p, U in zip(c['p'], c['k'])]
        src = []
        for i in range(d):
            p, U = c['p'][i], c['k'][i]; a, b = np.longdouble(U[p]), np.longdouble(U[len(U) - p - 1])
            src.append([min(max(a + b - np.longdouble(t), a), b) for t in gp[i]] if cnt[i] % 2 else gp[i])
        want = R(*src)
        close(ref.of(nrb)(*gp), want, 1e-8 * sc, op, rec, op)
        close(evaluate(nrb, gp), want, 1e-8 * sc, op + ' (evaluated by the library)')
        nrb.reverse(*axes)
        close(nrb.array, s[1], 0, 'reverse twice')
        for i in range(d):
            U = c['k'][i]
            close(nrb.knots[i], np.array(U), 1e-15 * 8 * (cnt[i] + 1) * (abs(U[0]) + abs(U[-1])), 'reverse twice: knots')
        rec.nontrivial(any(k % 2 for k in cnt))
    else:
        ax = c['perm'] % d; p, U = c['p'][ax], c['k'][ax]
        a, b = U[p], U[len(U) - p - 1]
        lo = c['a']; L = c['L']
        if lo is None and L is None: A = B = None; lo, hi = a, b
        elif lo is None: A, lo = None, a; hi = B = a + L
        elif L is None: A = lo; B, hi = None, b
        else: A = lo; hi = B = lo + L
        sax = ax - d if c['none'] else ax
        if not lo < hi:
            raises(lambda: nrb.remap(sax, A, B), 'remap to [%r,%r]' % (lo, hi)); unchanged(nrb, s, 'a rejected remap'); return
        ret = nrb.remap(sax, A, B)
        need(ret is nrb, 'remap does not return the object')
        msg = 'remap to [%r,%r]' % (lo, hi)
        valid(nrb, msg, d, R.nf)
        V = nrb.knots[ax].tolist()
        need(V[p] == lo and V[len(V) - p - 1] == hi, '%s: domain is [%r,%r]', msg, V[p], V[len(V) - p - 1])
        others(nrb, s, ax, msg); same(nrb.array, s[1], msg + ': array')
        aL, bL, cL, dL = map(np.longdouble, (a, b, lo, hi))
        w = np.array([cL + (np.longdouble(u) - aL) * (dL - cL) / (bL - aL) for u in U])
        ext = abs(w[0]) + abs(w[-1]) + (dL - cL) * (abs(aL) + abs(bL)) / (bL - aL) + abs(cL) + abs(dL)
        close(V, w, 8e-16 * 2 * ext, msg + ': knots', rec, 'knots')
        # distinct knots may only merge when rounding to the new domain forces it
        gap = min([x - y for x, y in zip(w[1:], w[:-1]) if x > y])
        if gap > 1e-14 * ext:
            need([V.count(u) for u in sorted(set(V))] == [U.count(u) for u in sorted(set(U))], '%s: multiplicities changed: %r', msg, V)
            gp = gen.grid_for(c['p'], c['k'])
            gp[ax] = offknots(p, V)
            src = list(gp)
            src[ax] = [min(max(aL + (np.longdouble(t) - cL) * (bL - aL) / (dL - cL), aL), bL) for t in gp[ax]]
            want = R(*src)
            cond = float(ext / gap) * 1e-15
            close(ref.of(nrb)(*gp), want, (1e-9 + 100 * cond) * sc, msg, rec, op)
            close(evaluate(nrb, gp), want, (1e-9 + 100 * cond) * sc, msg + ' (evaluated by the library)')
            # end points exactly
            for t, u in ((lo, a), (hi, b)):
                g1 = list(gp); g1[ax] = [t]; g2 = list(gp); g2[ax] = [u]
                close(evaluate(nrb, g1), R(*g2), (1e-9 + 100 * cond) * sc, msg + ' at %r' % t)
        nrb.remap(ax, a, b)
        V = nrb.knots[ax].tolist()
        need(V[p] == a and V[len(V) - p - 1] == b, '%s and back: domain is [%r,%r] instead of [%r,%r]', msg, V[p], V[len(V) - p - 1], a, b)
        close(V, np.array(U), 1e-15 * 64 * float(ext * (bL - aL) / (dL - cL) + abs(aL) + abs(bL) + abs(U[0]) + abs(U[-1])), msg + ' and back: knots')
        rec.nontrivial((lo, hi) != (a, b)); rec.cls('one end kept', A is None or B is None)

def near08(c, rec):
    """A knot a few units in the last place from an end of the domain: still valid and the same domain."""
    z = gen.splitmix(c['net'], 120).astype('d') / 2.0 ** 64 * 20 - 10
    for k in range(30):
        (a, b), (lo, hi) = sorted(z[4 * k:4 * k + 2].tolist()), sorted(z[4 * k + 2:4 * k + 4].tolist())
        side = (c['near'][0] + k // 4) % 2; n = 1 + (c['near'][1] + k // 2) % 3
        if k % 2: a = 0.5 + abs(a) / 20; b = 1.05 + abs(b) / 11      # a sum of larger exponent than both
        if k % 4 == 3: a, b = -b, -a
        y = a if side == 0 else b
        for _ in range(n): y = float(np.nextafter(y, np.inf if side == 0 else -np.inf))
        if b - a < 0.1 or hi - lo < 0.1: continue
        p = 1 + c['perm'] % 3
        U = [a] * (p + 1) + [y] * (1 + k % p) + [b] * (p + 1)
        if k % 5 == 4:
            # next to an end, outside of the domain
            U = [a] * (p + 1) + [b] * (p + 1); y = float(np.nextafter(U[0 if side == 0 else -1], np.inf if side else -np.inf))
            U[0 if side == 0 else -1] = y
        nrb = NURBS([U], gen.unit(c['net'], (len(U) - p - 1, 3)))
        if c['op'] == 'reverse': nrb.reverse(0); lo, hi = a, b
        else: nrb.remap(0, lo, hi)
        valid(nrb, '%s of knots %r' % (c['op'], U), 1, 0)
        K = nrb.knots[0]
        need(K[p] == lo and K[-p - 1] == hi, '%s of knots %r: domain [%r,%r]', c['op'], U, K[p], K[-p - 1])
    rec.cls('knot next to an end'); rec.nontrivial()

def offknots(p, U):
    """Domain ends and points well inside the spans."""
    U = [float(u) for u in U]
    a, b = U[p], U[len(U) - p - 1]
    br = sorted(set(u for u in U[p:len(U) - p]))
    out = [a]
    for x, y in zip(br[:-1], br[1:]): out += [x + (y - x) * f for f in (0.13, 0.5, 0.83)]
    return out + [b]

register('C08', strategy=cases08, check=check08, regress=[
    {'p': [2], 'k': [[0, 0, 0, 7, 49, 49, 49]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 5, 'op': 'remap', 'axes': [], 'perm': 0, 'none': False, 'a': 0, 'L': 1.0},
    {'p': [2], 'k': [[0.1, 0.1, 0.1, 0.3, 0.7, 0.7, 0.7]], 'rat': 0, 'nf': 0, 'mag': 0, 'net': 5, 'op': 'reverse', 'axes': [0], 'perm': 0, 'none': False, 'a': 0, 'L': 1.0}])
