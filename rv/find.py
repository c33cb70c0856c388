"""Parts of the objects under test that have no public accessor: by their
usual name, and when the attribute is called otherwise, by what it holds."""


def _values(o):
    return [(k, v) for k, v in vars(o).items() if v is not None]


def lp(mp):
    """The LP solver of a master problem."""
    s = getattr(mp, 'solver_', None)
    if s is None:
        s = next((v for _, v in _values(mp) if hasattr(v, 'NumConstraints')
                  and hasattr(v, 'Objective')), None)
    return s


def _all_of(o, cls):
    """The longest collection of objects of a class held by o."""
    best = []
    for _, v in _values(o):
        if isinstance(v, dict):
            v = list(v.values())
        if isinstance(v, (list, tuple)) and len(v) > len(best) and \
                all(isinstance(x, cls) for x in v):
            best = list(v)
    return best


def paths(mp):
    """All paths of a tree master problem."""
    if hasattr(mp, 'paths_'):
        return list(mp.paths_)
    from col_gen_estimator import Path
    return _all_of(mp, Path)


def splits(mp):
    if hasattr(mp, 'splits_'):
        return list(mp.splits_)
    from col_gen_estimator import Split
    return _all_of(mp, Split)


def _cp_name(sp):
    if hasattr(sp, 'cp_solver_'):
        return 'cp_solver_'
    from ortools.sat.python import cp_model
    return next(k for k, v in _values(sp)
                if isinstance(v, cp_model.CpSolver))


def cp(sp):
    return getattr(sp, _cp_name(sp))


def set_cp(sp, solver):
    setattr(sp, _cp_name(sp), solver)
