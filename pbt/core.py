"""Shared pieces: violations, recorder, property registry, comparison helpers."""
import json, hashlib
import numpy as np

class Violation(Exception):
    pass

class Reject(Exception):
    """A case outside the stated domain (only possible for hand edited replays)."""

PROPS = {}

class Prop(object):
    def __init__(self, id, strategy, check, regress=()):
        self.id, self.strategy, self.check, self.regress = id, strategy, check, list(regress)

def register(id, strategy, check, regress=()):
    PROPS[id] = Prop(id, strategy, check, regress)

def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))

class Rec(object):
    """Counts what a run generated."""
    def __init__(self):
        self.evals = 0
        self.classes = {}
        self.nontriv = set()
        self.samples = []
        self.worst = {}
        self.cur = None
        self._flag = False
    def begin(self, case):
        self.evals += 1; self.cur = case; self._flag = False
    def end(self):
        if self._flag:
            s = canon(self.cur)
            h = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
            if h not in self.nontriv:
                self.nontriv.add(h)
                if len(self.samples) < 3 and len(s) < 3000: self.samples.append(self.cur)
    def nontrivial(self, cond=True):
        if cond: self._flag = True
    def cls(self, name, cond=True):
        if cond: self.classes[name] = self.classes.get(name, 0) + 1
    def err(self, name, x):
        x = float(x)
        if x > self.worst.get(name, -1.0): self.worst[name] = x

def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)

def finite(a, msg):
    a = np.asarray(a)
    if a.size and not np.all(np.isfinite(a)):
        raise Violation('%s: result is not finite: %r' % (msg, brief(a)))

def brief(a):
    a = np.asarray(a, dtype='d')
    return a.tolist() if a.size <= 24 else a.ravel()[:24].tolist() + ['...']

def close(got, want, tol, msg, rec=None, name='err'):
    """Elementwise |got-want| <= tol (tol broadcast)."""
    got = np.asarray(got); want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation('%s: shape %r instead of %r' % (msg, got.shape, want.shape))
    finite(got, msg)
    if not got.size: return
    d = np.abs(got.astype(np.longdouble) - want)
    tol = np.broadcast_to(np.asarray(tol, dtype=np.longdouble), d.shape)
    r = np.where(d <= tol, d / np.maximum(tol, np.longdouble(1e-300)), np.maximum(d / np.maximum(tol, np.longdouble(1e-300)), 2))
    r = np.where(d == 0, 0, r)
    k = np.unravel_index(np.argmax(r), r.shape)
    if rec is not None: rec.err(name, r[k])
    if not r[k] <= 1:
        raise Violation('%s: at index %r got %r, expected %r (difference %.3g, tolerance %.3g)'
                        % (msg, tuple(int(i) for i in k), float(got[k]), float(want[k]),
                           float(d[k]), float(tol[k])))

def same(a, b, msg):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        raise Violation('%s: %s instead of %s' % (msg, brief(a), brief(b)))

def raises(fn, msg):
    try:
        fn()
    except Exception:
        return
    raise Violation('%s was accepted' % msg)

_known = None
def listed(ID, key):
    """Is this finding recorded in known_findings.txt?"""
    global _known
    if _known is None:
        import os
        _known = set()
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
        try:
            for l in open(p):
                if l.startswith('KNOWN-FINDING: property='):
                    w = l.split()
                    _known.add((w[1].split('=')[1], w[2].split('=')[1]))
        except OSError: pass
    return (ID, key) in _known
