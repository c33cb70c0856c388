"""The same matrix in different containers, types and memory layouts."""
import numpy as np


def containers(cx, X, integral, sparse=True, n=2):
    """Random list of (name, container) holding the same values as X.
    integral: the values survive a cast to small integers."""
    import pandas as pd
    import scipy.sparse as sp
    opts = {
        'float64': lambda: np.array(X, dtype=np.float64),
        'list': lambda: np.asarray(X).tolist(),
        'fortran': lambda: np.asfortranarray(np.array(X, float)),
        'strided': lambda: np.repeat(np.array(X, float), 2, axis=0)[::2],
        'columns': lambda: np.repeat(np.array(X, float), 2, axis=1)[:, ::2],
        'reversed': lambda: np.array(X, float)[::-1].copy()[::-1],
        'frame': lambda: pd.DataFrame(np.array(X, float)),
        'object': lambda: np.array(X, dtype=object),
        'readonly': lambda: _ro(np.array(X, float)),
        'swapped': lambda: np.array(X, dtype='>f8'),
    }
    A = np.asarray(X, dtype=float)
    if integral and np.abs(A).max(initial=0) <= 100 and \
            (A == np.round(A)).all():
        opts.update({
            'int8': lambda: np.array(X, dtype=np.int8),
            'int64': lambda: np.array(X, dtype=np.int64),
            'float32': lambda: np.array(X, dtype=np.float32),
            'int frame': lambda: pd.DataFrame(np.array(X, dtype=int)),
        })
        if np.isin(X, (0, 1)).all():
            opts['bool'] = lambda: np.array(X, dtype=bool)
            opts['uint8'] = lambda: np.array(X, dtype=np.uint8)
    if sparse:
        opts['csr'] = lambda: sp.csr_matrix(np.array(X, float))
        opts['csc'] = lambda: sp.csc_matrix(np.array(X, float))
    names = sorted(opts)
    cx.rng.shuffle(names)
    return [(k, opts[k]()) for k in names[:n]]


def _ro(A):
    A.setflags(write=False)
    return A


def frozen(o):
    """A deep value of a container, to detect modifications."""
    import pandas as pd
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return ('pd', o.copy(deep=True))
    if hasattr(o, 'tocsr'):
        return ('sp', o.toarray().copy(), o.dtype)
    if isinstance(o, np.ndarray):
        return ('np', o.copy(), o.dtype)
    import copy
    return ('py', copy.deepcopy(o))


def unchanged(o, f):
    if f[0] == 'pd':
        return o.equals(f[1])
    if f[0] == 'sp':
        return o.dtype == f[2] and np.array_equal(o.toarray(), f[1])
    if f[0] == 'np':
        if o.dtype != f[2] or o.shape != f[1].shape:
            return False
        return bool(np.all((o == f[1]) | ((o != o) & (f[1] != f[1]))))
    return o == f[1]
