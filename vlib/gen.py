"""Generators shared by the checks."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)


def fl(lo, hi, **k):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, **k)


def rng(seed):
    """Bulk data expanded from a generated seed: a pure function of the case."""
    return np.random.default_rng(seed)
