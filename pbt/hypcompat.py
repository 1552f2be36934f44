"""Hypothesis strategies, or (when one case is replayed without Hypothesis) a stand-in
that lets the modules be imported."""
try:
    from hypothesis import strategies as st
except ImportError:
    class _Any(object):
        def __getattr__(self, name): return self
        def __call__(self, *a, **k): return self
    st = _Any()
