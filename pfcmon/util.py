"""Small oracles: strict structural equality that survives arrays, frames and NaN."""


def same(a, b):
    """Equality with type strictness (1 is not True, 1 is not 1.0), NaN equal to itself."""
    if a is b:
        return True
    import numpy as np
    import pandas as pd
    if type(a) is not type(b):
        return False
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a) if _ordered(a) else (
            a.keys() == b.keys() and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def _ordered(_):
    return False
