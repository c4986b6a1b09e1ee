"""Deep comparison and snapshots of library objects, independent of how they store things."""
import copy
import numpy as np
import pandas as pd


def freeze(x, depth=0):
    """Hashable-ish deep snapshot (copies arrays)."""
    if depth > 12:
        return '...'
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('nda_o', x.shape, [freeze(v, depth + 1) for v in x.ravel()])
        return ('nda', x.shape, str(x.dtype), x.copy())
    if isinstance(x, pd.DataFrame):
        return ('df', [str(c) for c in x.columns], [freeze(x.iloc[:, i].values, depth + 1) for i in range(x.shape[1])], freeze(x.index.values, depth + 1))
    if isinstance(x, pd.Series):
        return ('ser', freeze(x.values, depth + 1))
    if isinstance(x, dict):
        d = ('dict', [(str(k), freeze(v, depth + 1)) for k, v in dict.items(x)])
        return d
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, depth + 1) for v in x])
    if isinstance(x, (str, bytes, int, float, bool, complex, type(None), np.generic)):
        return ('v', x)
    if callable(x) or isinstance(x, type):
        return ('callable',)
    try:
        # NOTE: some objects load things when their attributes are accessed
        d = object.__getattribute__(x, '__dict__')
    except AttributeError:
        d = None
    if d is not None:
        return ('obj', type(x).__name__, [(k, freeze(v, depth + 1)) for k, v in sorted(d.items())])
    return ('repr', type(x).__name__)


def same(a, b, path=''):
    """None if two frozen snapshots are equal, else a description of the first difference. NaN equals NaN."""
    if type(a) is not type(b):
        return '{}: {} vs {}'.format(path, type(a).__name__, type(b).__name__)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return '{}: array {} {} vs {} {}'.format(path, a.shape, a.dtype, b.shape, b.dtype)
        if a.dtype.kind in 'fc':
            ok = (a == b) | (np.isnan(a) & np.isnan(b))
        else:
            ok = (a == b)
        if not np.all(ok):
            i = np.argwhere(~np.atleast_1d(ok))[0]
            return '{}: array differs at {}: {!r} vs {!r}'.format(path, tuple(i), np.atleast_1d(a)[tuple(i)], np.atleast_1d(b)[tuple(i)])
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '{}: length {} vs {} ({!r:.100} / {!r:.100})'.format(path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            p = path
            if isinstance(x, str) and i == 0:
                p = path + '.' + x
            d = same(x, y, p + '[{}]'.format(i))
            if d:
                return d
        return None
    try:
        if a == b:
            return None
    except Exception:
        pass
    try:
        if a != a and b != b:
            return None
    except Exception:
        pass
    return '{}: {!r:.200} vs {!r:.200}'.format(path, a, b)


def arr_close(a, b, rtol=0.0, atol=0.0):
    """None or description of first mismatch; NaN==NaN."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return 'shape {} vs {}'.format(a.shape, b.shape)
    if a.size == 0:
        return None
    try:
        a = a.astype(float)
        b = b.astype(float)
    except (ValueError, TypeError):
        ok = np.array([str(x) == str(y) for x, y in zip(a.ravel(), b.ravel())]).reshape(a.shape)
    else:
        with np.errstate(all='ignore'):
            ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= np.asarray(atol) + rtol * np.abs(b))
    if np.all(ok):
        return None
    i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
    return 'at {}: got {!r}, expected {!r} ({} of {} differ)'.format(i, np.atleast_1d(a)[i], np.atleast_1d(b)[i], int((~ok).sum()), ok.size)
