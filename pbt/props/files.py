"""C20 PetIGA geometry files, C21 vectors, matrices and damaged files, C22 VTK files."""
import os, shutil, struct, tempfile
import numpy as np
from hypcompat import st
import gen, ref
from core import register, need, close, same, raises, Violation
from sut import NURBS, valid, snap, unchanged, spoil
from igakit.io import PetIGA, VTK

LD = np.longdouble
IGA, VEC, MAT = 1211299, 1211214, 1211216
RT = {'single': '>f4', 'double': '>f8'}
ST = {('single', 'real'): '>f4', ('double', 'real'): '>f8', ('single', 'complex'): '>c8', ('double', 'complex'): '>c16'}
IT = {'32bit': '>i4', '64bit': '>i8'}

class Dir(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='igakit-io-'); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

@st.composite
def kinds(draw):
    return [draw(st.sampled_from(['double', 'double', 'single'])), draw(st.sampled_from(['real', 'real', 'complex'])),
            draw(st.sampled_from(['32bit', '32bit', '64bit']))]

class Buf(object):
    """Independent reader of the big endian layout."""
    def __init__(self, data, kind):
        self.d, self.o = data, 0
        self.I, self.R, self.S = np.dtype(IT[kind[2]]), np.dtype(RT[kind[0]]), np.dtype(ST[kind[0], kind[1]])
    def take(self, dt, n):
        e = self.o + dt.itemsize * n
        need(e <= len(self.d), 'the file is too short: %d bytes, %d wanted', len(self.d), e)
        a = np.frombuffer(self.d[self.o:e], dt); self.o = e
        return a
    def int(self): return int(self.take(self.I, 1)[0])
    def end(self): need(self.o == len(self.d), '%d bytes behind the end of the data', len(self.d) - self.o)

def tobytes(kind, *parts):
    """Independent writer: integers as index type, ('R', a), ('S', a) as real or scalar arrays."""
    out = []
    for p in parts:
        if isinstance(p, tuple): out.append(np.asarray(p[1]).astype(RT[kind[0]] if p[0] == 'R' else ST[kind[0], kind[1]] if p[0] == 'S' else IT[kind[2]]).tobytes())
        else: out.append(np.asarray(p).astype(IT[kind[2]]).tobytes())
    return b''.join(out)

def open_fds(path):
    path = os.path.realpath(path); n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            if os.path.realpath('/proc/self/fd/' + f) == path: n += 1
        except OSError: pass
    return n

def layout(A, comps_last=True):
    """Components first, first axis fastest."""
    return np.moveaxis(np.asarray(A), -1, 0).ravel(order='F')

# ------------------------------------------------------------ C20
@st.composite
def cases20(draw):
    c = draw(gen.maybe_huge(draw(gen.nurbs())))
    c['kind'] = draw(kinds())
    if draw(st.integers(0, 7)) == 0: c['sp'] = 3
    c['control'] = draw(st.sampled_from([1, 1, 1, 0])); c['fields'] = draw(st.sampled_from([1, 1, 1, 0]))
    c['nsd'] = draw(st.sampled_from([0, 0, 3, 3, 2])); c['old'] = draw(st.booleans())
    if draw(st.integers(0, 249)) == 77: c.update(giant=draw(st.integers(17000, 40000)), nsd=3, p=[1 + c['net'] % 2], k=[[0.0, 0.0, 0.0, 1.0, 1.0, 1.0]])
    return c

def single_ok(c, nrb):
    """Distinct knots stay distinct in single precision (otherwise it is another object)."""
    return all(len(set(np.asarray(U).astype('f4').tolist())) == len(set(np.asarray(U).tolist())) for U in nrb.knots)

def check20(c, rec):
    if 'giant' in c:
        # more numbers than fit into one block of 65536
        p = c['p'][0]; c = dict(c, k=[[0.0] * p + np.linspace(0, 1, c['giant'] - p + 1).tolist() + [1.0] * p]); rec.cls('giant')
    nrb = gen.make(c, NURBS); d = nrb.dim; s0 = snap(nrb)
    kind = c['kind']
    prec = 2e-7 if kind[0] == 'single' else 4e-16
    nsd = max(d, c['nsd']) if c['nsd'] else None
    P = PetIGA(precision=kind[0], scalar=kind[1], indices=kind[2])
    kw = {}
    if not c['control']: kw['control'] = False
    if not c['fields']: kw['fields'] = False
    if nsd: kw['nsd'] = nsd
    k = nsd or d
    with Dir() as tmp:
        fn = os.path.join(tmp, 'g.dat')
        if c['old']:
            with open(fn, 'wb') as f: f.write(b'\xff' * 50000)
        P.write(fn, nrb, **kw)
        need(open_fds(fn) == 0, 'write() leaves its file open')
        unchanged(nrb, s0, 'write() changed the object')
        with open(fn, 'rb') as f: data = f.read()
        # the bytes
        b = Buf(data, kind)
        need(b.int() == IGA, 'wrong identifier')
        info = b.int()
        hasF = bool(c['fields']) and c['nf'] > 0
        need(info == (1 if c['control'] else 0) + (2 if hasF else 0), 'info flags %d', info)
        need(b.int() == d, 'wrong dimension')
        for p, U in zip(c['p'], c['k']):
            need(b.int() == p, 'wrong degree')
            need(b.int() == len(U), 'wrong number of knots')
            same(b.take(b.R, len(U)).astype('d'), np.array(U).astype(b.R).astype('d'), 'knots in the file')
        shp = gen.shape_of(c); n = int(np.prod(shp))
        A = np.asarray(nrb.array)
        if c['control']:
            need(b.int() == k, 'wrong number of space dimensions')
            need(b.int() == VEC, 'wrong vector identifier')
            need(b.int() == n * (k + 1), 'wrong size of the control point vector')
            want = layout(np.concatenate([A[..., :k], A[..., 3:4]], axis=-1))
            same(b.take(b.S, n * (k + 1)).astype('c16'), want.astype(b.S).astype('c16'), 'control points in the file')
        if hasF:
            need(b.int() == c['nf'], 'wrong number of fields')
            need(b.int() == VEC, 'wrong vector identifier of the fields')
            need(b.int() == n * c['nf'], 'wrong size of the field vector')
            _, _, F = gen.data_of(c)
            got = b.take(b.S, n * c['nf']).astype('c16')
            need(not got.imag.any(), 'imaginary parts of real fields')
            close(got.real, layout(F), prec * np.abs(layout(F)) + 1e-300, 'fields in the file', rec, 'fields in file')
        b.end()
        rec.cls('dim%d' % d); rec.cls('-'.join(kind)); rec.cls('fields', hasF); rec.cls('no control', not c['control']); rec.cls('nsd given', bool(nsd))
        rec.nontrivial(kind != ['double', 'real', '32bit'] or hasF or not c['control'] or bool(nsd))
        if kind[0] == 'single' and not single_ok(c, nrb): return
        # read it back, and the same data written independently
        parts = [IGA, info, d]
        for p, U in zip(c['p'], c['k']): parts += [p, len(U), ('R', U)]
        if c['control']: parts += [k, VEC, n * (k + 1), ('S', want)]
        if hasF: parts += [c['nf'], VEC, n * c['nf'], ('S', layout(F))]
        fn2 = os.path.join(tmp, 'h.dat')
        with open(fn2, 'wb') as f: f.write(tobytes(kind, *parts))
        for name, r in (('reading back', P.read(fn)), ('reading an independently written file', P.read(fn2))):
            need(open_fds(fn) == 0 and open_fds(fn2) == 0, '%s leaves the file open', name)
            valid(r, name, d, c['nf'] if hasF else 0)
            need(tuple(r.degree) == tuple(c['p']) and tuple(r.shape) == shp, '%s: degree %r, shape %r', name, r.degree, r.shape)
            for U, V in zip(c['k'], r.knots): same(V, np.array(U).astype(b.R).astype('d'), name + ': knots')
            if c['control']:
                w = np.zeros(shp + (4,)); w[..., :k] = A[..., :k]; w[..., 3] = A[..., 3]
                same(r.control, w.astype(b.R).astype('d'), name + ': control points and weights')
            else:
                same(r.weights, np.ones(shp), name + ': weights')
                pts = np.zeros(shp + (3,), dtype=LD)
                for i, (p, U) in enumerate(zip(c['p'], c['k'])):
                    U = np.array(U).astype(b.R).astype('d')
                    g = np.array([sum(LD(t) for t in U[j + 1:j + p + 1]) / p for j in range(shp[i])])
                    pts[..., i] = g.reshape([-1 if j == i else 1 for j in range(d)])
                close(r.points, pts, 4 * prec * (1e-300 + np.abs(pts).max()), name + ': points without control points', rec, 'identity')
            if hasF: close(r.fields, F, 3 * prec * np.abs(F) + 1e-300, name + ': fields', rec, 'fields')
            else: need(r.fields is None, '%s: fields %r', name, r.fields)
        # another object of the same structure in the same files
        spoil(r)
        B = A.copy(); B[..., :3] = A[::-1, ..., :3]; B[..., 3:] = A[..., 3:]
        other = NURBS([U * 2 for U in nrb.knots], B[..., :4].copy(), None if B.shape[-1] == 4 else B[..., 4:] / B[..., 3:4])
        if kind[0] == 'double' and d < 3 or c['old']:
            P.write(fn, other, **kw); r = P.read(fn) if c['nsd'] != 2 else PetIGA(*kind).read(fn)
            for U, V in zip(c['k'], r.knots): same(V, (2 * np.array(U)).astype(b.R).astype('d'), 'a file written again: knots')
            if c['control']: same(r.control[..., :k], B[..., :k].astype(b.R).astype('d'), 'a file written again: control points')

register('C20', strategy=cases20, check=check20)

# ------------------------------------------------------------ C21
@st.composite
def cases21(draw):
    c = draw(gen.nurbs(dims=(1, 2, 3), maxspans=2, pmax=2))
    c['kind'] = draw(kinds()); c['what'] = draw(st.sampled_from(['vec', 'vec', 'mat', 'mat', 'geo']))
    c['w'] = draw(st.sampled_from([0, 1, 1])); c['r'] = draw(st.sampled_from([0, 1, 1]))
    c['nc'] = draw(st.sampled_from([0, 1, 2, 3, 5])); c['size'] = draw(st.integers(0, 40))
    c['M'] = draw(st.integers(1, 7)); c['N'] = draw(st.integers(1, 7)); c['fill'] = draw(st.integers(0, 1023))
    c['cut'] = [draw(st.integers(0, 1 << 20)) for _ in range(12)]
    c['ids'] = draw(st.sampled_from([0, 1, VEC, MAT, IGA, VEC + 1, MAT - 1, -1, 1 << 24]))
    c['control'] = draw(st.sampled_from([1, 1, 0]))
    if draw(st.integers(0, 29)) == 17:
        # more rows, columns or entries than small integer types can count
        c['big'] = [draw(st.sampled_from([1, 130, 260, 700, 33000])), draw(st.sampled_from([200, 300, 33000, 70000, 1 << 30, 1 << 40]))]
    return c

def values(c, shape, cplx):
    a = gen.unit(c['net'] + 31, shape) * 8 - 4
    a = a + 1.0 / 3
    if cplx: a = a + 1j * (gen.unit(c['net'] + 57, shape) - 0.5)
    return a

def rejected(fn, path, msg):
    try: r = fn()
    except Exception as e:
        n = open_fds(path)          # the traceback still refers to the reader's frames
        need(n == 0, '%s: the file stays open after %s', msg, type(e).__name__)
        del e
        return
    raise Violation('%s was accepted' % msg)

def damage(c, rec, P, kind, data, path, read, ids, name, counts=()):
    """Truncations anywhere, wrong identifiers and counts that are negative or too large raise."""
    L = len(data)
    cuts = set(range(L)) if L <= 48 else set(t % L for t in c['cut']) | {0, 1, 3, 4, 5, 7, 8, L - 1, L - 2, L - 4, L - 8, L // 2}
    isz = np.dtype(IT[kind[2]]).itemsize
    cuts |= set(t * isz for t in (1, 2, 3, 4, 5) if t * isz < L)
    for n in sorted(cuts):
        with open(path, 'wb') as f: f.write(data[:n])
        rejected(read, path, 'a %s file cut to %d of %d bytes' % (name, n, L)); rec.cls('truncated')
    for off in ids:
        old = int(np.frombuffer(data[off:off + isz], IT[kind[2]])[0])
        new = c['ids']
        if new == old: continue
        with open(path, 'wb') as f: f.write(data[:off] + np.array(new).astype(IT[kind[2]]).tobytes() + data[off + isz:])
        rejected(read, path, 'a %s file with identifier %d instead of %d at byte %d' % (name, new, old, off)); rec.cls('wrong identifier')
    for off in counts:
        old = int(np.frombuffer(data[off:off + isz], IT[kind[2]])[0])
        for new in (-1, -2, -1 - old, -old, old + 1 + c['cut'][0] % 9):
            if new == old or new >= 0 and new < old: continue
            with open(path, 'wb') as f: f.write(data[:off] + np.array(new).astype(IT[kind[2]]).tobytes() + data[off + isz:])
            rejected(read, path, 'a %s file with the count %d instead of %d at byte %d' % (name, new, old, off)); rec.cls('wrong count')

def check21(c, rec):
    kind = c['kind']; P = PetIGA(*kind); cplx = kind[1] == 'complex'
    S = np.dtype(ST[kind[0], kind[1]])
    nrb = gen.make(c, NURBS); shp = tuple(nrb.shape); d = nrb.dim; n = int(np.prod(shp))
    isz = np.dtype(IT[kind[2]]).itemsize
    rec.cls(c['what']); rec.cls('-'.join(kind))
    with Dir() as tmp:
        fn = os.path.join(tmp, 'x.dat')
        if c['what'] == 'vec':
            if 'big' in c: shape = shp + (min(c['big'][1], 70000) // n + 1,) if c['w'] or c['r'] else (min(c['big'][1], 70000),)
            elif not c['w'] and not c['r']: shape = (c['size'],) if c['fill'] % 2 else (c['size'] // 4, 3)
            else: shape = shp + ((c['nc'],) if c['nc'] else ())
            A = values(c, shape, cplx); A0 = A.copy()
            if c['fill'] % 3 == 0: A = np.asfortranarray(A)
            elif c['fill'] % 3 == 1 and A.size: A = A.tolist()
            if c['w']: P.write_vec(fn, A, nrb)
            else: P.write_vec(fn, A)
            need(open_fds(fn) == 0, 'write_vec() leaves its file open')
            same(np.asarray(A), A0, 'write_vec() changed its argument')
            with open(fn, 'rb') as f: data = f.read()
            b = Buf(data, kind)
            need(b.int() == VEC, 'wrong vector identifier'); need(b.int() == A0.size, 'wrong vector size')
            Q = A0.reshape(shp + (-1,)) if len(shape) >= d and (c['w'] or c['r']) else None
            flat = layout(Q) if c['w'] else A0.ravel()
            cast = lambda a: a.astype(S).astype('c16')
            same(b.take(S, A0.size).astype('c16'), cast(flat), 'vector in the file'); b.end()
            if c['r']:
                if not c['w']:
                    want = np.moveaxis(A0.ravel().reshape((-1,) + shp, order='F'), 0, -1)
                else: want = Q
                if want.shape[-1] == 1: want = want[..., 0]
                got = P.read_vec(fn, nrb); read = lambda: P.read_vec(fn, nrb)
            else:
                want = flat; got = P.read_vec(fn); read = lambda: P.read_vec(fn)
            need(open_fds(fn) == 0, 'read_vec() leaves its file open')
            need(isinstance(got, np.ndarray) and got.shape == want.shape, 'read_vec() gave shape %r instead of %r', np.shape(got), want.shape)
            need(np.array_equal(got.astype('c16'), cast(want)), 'read_vec() gave %r instead of %r', got.ravel()[:8].tolist(), want.ravel()[:8].tolist())
            need(np.dtype(got.dtype).kind == S.kind and got.dtype.itemsize == S.itemsize, 'read_vec() gave type %s', got.dtype)
            damage(c, rec, P, kind, data, fn, read, [0], 'vector', [isz])
            rec.nontrivial(bool(c['w'] or c['r']))
        elif c['what'] == 'mat':
            if 'big' in c:
                M, N = c['big']
                if kind[2] == '32bit': N = min(N, 1 << 30)
                rown = np.floor(gen.unit(c['net'] + 3, (M,)) * (1 + min(N, 100000 // M))).astype('i8')
                if c['fill'] % 2 and N > 32768: rown[c['fill'] % M] = 32768 + c['fill']      # one row much longer than the others
                nz = int(rown.sum()); AJ = np.floor(gen.unit(c['net'] + 4, (nz,)) * N).astype('i8').tolist()
                AV = values(c, (nz,), cplx).astype(S); rec.cls('big matrix')
            else:
                M, N = c['M'], c['N']
                mask = gen.unit(c['net'] + 3, (M, N)) * 1023 < c['fill']
                V = values(c, (M, N), cplx).astype(S)
                rown = mask.sum(axis=1); AJ = [j for i in range(M) for j in range(N) if mask[i, j]]
                AV = np.array([V[i, j] for i in range(M) for j in range(N) if mask[i, j]], dtype=S)
            data = tobytes(kind, MAT, M, N, len(AJ), ('I', rown), ('I', np.array(AJ, dtype='i8')), ('S', AV))
            with open(fn, 'wb') as f: f.write(data)
            (m, nn), (ai, aj, av) = P.read_mat(fn)
            need(open_fds(fn) == 0, 'read_mat() leaves its file open')
            need(int(m) == M and int(nn) == N, 'read_mat(): size %r x %r instead of %d x %d', m, nn, M, N)
            need(np.dtype(av.dtype).kind == S.kind and av.dtype.itemsize == S.itemsize, 'read_mat() gave type %s', av.dtype)
            need(np.asarray(ai).shape == (M + 1,), 'read_mat(): row pointers %r', ai)
            same(ai, np.concatenate([[0], np.cumsum(rown)]), 'read_mat(): row pointers')
            same(aj, np.array(AJ, dtype='d'), 'read_mat(): columns')
            need(np.array_equal(np.asarray(av).astype('c16'), AV.astype('c16')), 'read_mat(): values %r', np.asarray(av)[:8])
            damage(c, rec, P, kind, data, fn, lambda: P.read_mat(fn), [0], 'matrix', [isz, 3 * isz])
            # more or fewer entries announced than the rows hold
            for wrong in (len(AJ) + 1, max(0, len(AJ) - 1)):
                if wrong == len(AJ): continue
                with open(fn, 'wb') as f: f.write(tobytes(kind, MAT, M, N, wrong, ('I', rown), ('I', np.array(AJ, dtype='i8')), ('S', AV)))
                rejected(lambda: P.read_mat(fn), fn, 'a matrix file announcing %d of %d entries' % (wrong, len(AJ)))
            rec.nontrivial(len(AJ) > 1)
        else:
            P.write(fn, nrb, control=bool(c['control']), nsd=3)
            with open(fn, 'rb') as f: data = f.read()
            b = Buf(data, kind); ids = [0]
            b.int(); info = b.int(); counts = [b.o]; b.int()
            for p in c['p']: b.int(); counts.append(b.o); m = b.int(); b.take(b.R, m)
            if info & 1: b.int(); ids.append(b.o); b.int(); counts.append(b.o); b.take(b.S, b.int())
            if info & 2: b.int(); ids.append(b.o); b.int(); counts.append(b.o)
            if kind[0] == 'double' or single_ok(c, nrb): P.read(fn)
            damage(c, rec, P, kind, data, fn, lambda: P.read(fn), ids, 'geometry', counts)
            rec.nontrivial()

register('C21', strategy=cases21, check=check21)

# ------------------------------------------------------------ C22
NAMES = ['', 'p', 'a b', 'temperature', 'x y z', 'Z', 'field-1', 'B']
@st.composite
def cases22(draw):
    c = draw(gen.maybe_huge(draw(gen.nurbs(mags=True, nf=draw(st.sampled_from([0, 1, 2, 4]))))))
    c['control'] = draw(st.sampled_from([1, 1, 0])); c['smp'] = draw(st.sampled_from([None, None, 'one', 'lin3', 'ends', 'mid', 'same']))
    c['f'] = draw(st.sampled_from(['none', 'true', 'array', 'scalar']))
    c['nc'] = draw(st.integers(1, 4))
    I = st.integers(-12, 11)
    c['s'] = [[draw(st.integers(0, len(NAMES) - 1)), draw(I)] for _ in range(draw(st.integers(0, 3)))]
    c['v'] = [[draw(st.integers(0, len(NAMES) - 1)), [draw(I) for _ in range(draw(st.integers(1, 3)))]] for _ in range(draw(st.integers(0, 3)))]
    c['dict'] = draw(st.booleans()); c['title'] = draw(st.sampled_from([0, 0, 1, 2]))
    return c

def sampler(kind):
    if kind == 'one': return lambda u: np.array([u[0] + (u[-1] - u[0]) * 0.25])
    if kind == 'lin3': return lambda u: np.linspace(u[0], u[-1], 3 * len(u) // 2 + 1)
    if kind == 'ends': return lambda u: u[[0, -1]]
    if kind == 'mid': return lambda u: (u[:-1] + u[1:]) / 2
    if kind == 'same': return lambda u: u[::-1]
    return None

class Vtk(object):
    def __init__(self, data): self.d, self.o = data, 0
    def line(self):
        e = self.d.find(b'\n', self.o)
        need(e >= 0, 'the VTK file ends in the middle of a line')
        l = self.d[self.o:e]; self.o = e + 1
        try: return l.decode('ascii')
        except UnicodeDecodeError: raise Violation('text expected in the VTK file, got %r' % l[:40])
    def block(self, n):
        e = self.o + 8 * n
        need(e + 1 <= len(self.d), 'the VTK file is too short')
        a = np.frombuffer(self.d[self.o:e], '>f8').astype('d'); self.o = e
        need(self.d[e:e + 1] == b'\n', 'no line end behind binary data'); self.o += 1
        return a

def comp(k, n):
    """A component, counted from the front or, as everywhere in Python, from the back."""
    return k % n if k >= -6 else k % n - n

def check22(c, rec):
    nrb = gen.make(c, NURBS); R = gen.ref_of(c); d = nrb.dim; shp = tuple(nrb.shape); s0 = snap(nrb)
    f = c['f']
    if f in ('none', 'true') and not c['nf']: f = 'array'
    FR = R
    if f in ('none', 'true'): nfld = c['nf']
    else:
        F = gen.unit(c['net'] + 8, shp + ((c['nc'],) if f == 'array' else ())) * 6 - 3
        F2 = F if f == 'array' else F[..., None]; nfld = F2.shape[-1]
        FR = ref.Ref(c['k'], np.concatenate([R.A[..., :4], F2 * R.A[..., 3:4]], axis=-1))
    def name(i, dup):
        n = NAMES[i]
        return n
    sc, ve = [], []
    for i, k in c['s']:
        if c['dict'] and NAMES[i] in [x[0] for x in sc]: continue
        sc.append((NAMES[i], comp(k, nfld)))
    for i, ks in c['v']:
        if c['dict'] and NAMES[i] in [x[0] for x in ve]: continue
        ve.append((NAMES[i], [comp(k, nfld) for k in ks]))
    kw = {}
    if sc: kw['scalars'] = dict(sc) if c['dict'] else list(sc)
    if ve: kw['vectors'] = dict(ve) if c['dict'] else (list(ve) if c['nc'] % 2 else tuple(ve))
    if c['dict']: sc.sort(); ve.sort()
    if f == 'true': kw['fields'] = True
    elif f in ('array', 'scalar'): kw['fields'] = F
    if c['smp']: kw['sampler'] = sampler(c['smp'])
    if not c['control']: kw['control'] = False
    V = VTK(); title = 'VTK Data'
    if c['title'] == 1: V.title = title = 'my title'
    if c['title'] == 2: V.title = 'x' * 400; title = 'x' * 255
    with Dir() as tmp:
        fn = os.path.join(tmp, 'a.vtk')
        V.write(fn, nrb, **kw)
        with open(fn, 'rb') as h: data = h.read()
        need(open_fds(fn) == 0, 'VTK.write() leaves its file open')
    unchanged(nrb, s0, 'VTK.write() changed the object')
    smp = sampler(c['smp']) or (lambda u: u)
    uvw = []
    for p, U in zip(c['p'], c['k']):
        uvw.append(smp(np.array(sorted(set(U[p:len(U) - p])))))
    W = FR(*[u.tolist() for u in uvw]); tolW = 1e-11 * FR.scale()
    r = Vtk(data)
    need(r.line().startswith('# vtk DataFile Version 2.0'), 'VTK header'); need(r.line() == title, 'VTK title')
    need(r.line() == 'BINARY', 'VTK format')
    kind = 'STRUCTURED_GRID' if c['control'] else 'RECTILINEAR_GRID'
    need(r.line().split() == ['DATASET', kind], 'VTK dataset is not %s', kind)
    dims = [len(u) for u in uvw] + [1] * (3 - d); n = int(np.prod(dims))
    l = r.line(); need(l.split() == ['DIMENSIONS'] + [str(t) for t in dims], 'VTK dimensions %r instead of %r', l, dims)
    # VTK numbers points with the first index running fastest
    order = lambda A: np.concatenate([np.asarray(A[..., j]).ravel(order='F')[:, None] for j in range(A.shape[-1])], axis=1)
    if c['control']:
        l = r.line(); need(l.split() == ['POINTS', str(n), 'double'], 'VTK points: %r', l)
        close(r.block(3 * n).reshape(n, 3), order(W[..., :3]), tolW[:3], 'points in the VTK file', rec, 'points')
    else:
        for i, X in enumerate('XYZ'):
            l = r.line(); need(l.split() == [X + '_COORDINATES', str(dims[i]), 'double'], 'VTK coordinates: %r', l)
            same(r.block(dims[i]), uvw[i] if i < d else np.zeros(1), 'coordinates in the VTK file')
    if sc or ve:
        l = r.line(); need(l.split() == ['POINT_DATA', str(n)], 'VTK point data: %r', l)
        G = order(W[..., 3:]); tg = tolW[3:]
        for i, (nm, k) in enumerate(sc):
            l = r.line(); want = (nm or 'scalars%d' % i).replace(' ', '_')
            need(l.split()[:3] == ['SCALARS', want, 'double'], 'VTK scalars: %r instead of %r', l, want)
            need(r.line().split() == ['LOOKUP_TABLE', 'default'], 'VTK lookup table')
            close(r.block(n), G[:, k], tg[k], 'scalars %r' % nm, rec, 'scalars')
        for i, (nm, ks) in enumerate(ve):
            l = r.line(); want = (nm or 'vectors%d' % i).replace(' ', '_')
            need(l.split() == ['VECTORS', want, 'double'], 'VTK vectors: %r instead of %r', l, want)
            v = np.zeros((n, 3), dtype=LD); t = np.zeros(3)
            for j, k in enumerate(ks): v[:, j] = G[:, k]; t[j] = tg[k]
            close(r.block(3 * n).reshape(n, 3), v, t, 'vectors %r' % nm, rec, 'vectors')
    need(r.o == len(data), '%d bytes behind the end of the VTK data', len(data) - r.o)
    rec.cls('dim%d' % d); rec.cls(kind); rec.cls('scalars', bool(sc)); rec.cls('vectors', bool(ve)); rec.cls('fields: ' + f, bool(sc or ve))
    rec.cls('sampler', c['smp'] is not None)
    rec.nontrivial(bool(sc or ve) and d >= 2)

register('C22', strategy=cases22, check=check22)
