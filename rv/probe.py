"""Monitors attached to the real code: recorders around the public methods of
master and pricing objects, an iteration cap against endless runs, and a cap
on the threads of the constraint solver."""
import copy

from . import clock, find
from .core import Runaway

# fault: function(kind 'mp'/'cp', phase, solver) -> None or a status returned
# instead of solving, or for CP-SAT a deterministic time limit (float).
_state = {'rec': None, 'cap': None, 'iters': 0, 'workers': 1,
          'before': [], 'after': [], 'fault': None, 'phase': [],
          'open': set()}


class Recorder:
    def __init__(self):
        self.ev = []
        self.status = []        # of all MPSolver solves

    def of(self, kind):
        return [e for e in self.ev if e['kind'] == kind]


def _wrap(cls, name, kind):
    owner = next((c for c in cls.__mro__ if name in c.__dict__), None)
    if owner is None or owner.__name__.startswith('Base') or \
            hasattr(owner.__dict__[name], '__wrapped__'):
        return
    orig = owner.__dict__[name]

    def wrapper(self, *a, **k):
        rec = _state['rec']
        if (kind, id(self)) in _state['open']:      # called through super()
            return orig(self, *a, **k)
        if kind == 'solve_rmp':
            _state['iters'] += 1
            if _state['cap'] and _state['iters'] > _state['cap']:
                raise Runaway('more than %d iterations' % _state['cap'])
        n = len(rec.status) if rec is not None else 0
        t0 = clock.now()
        _state['phase'].append(kind)
        _state['open'].add((kind, id(self)))
        try:
            res = orig(self, *a, **k)
        finally:
            _state['phase'].pop()
            _state['open'].discard((kind, id(self)))
        if rec is not None:
            rec.ev.append(dict(
                kind=kind, t0=t0, t1=clock.now(), value=_value(
                    self, kind, rec.status[n:]), obj=self, args=a, kwargs=k, ret=res,
                status=rec.status[n:],
                gap=list(getattr(self, 'gaps_', ()) or ())[-1:]))
        return res
    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    setattr(cls, name, wrapper)


def _value(mp, kind, status):
    """The value of the LP just solved."""
    if kind == 'solve_rmp' and status and status[-1] == 0:
        lp = find.lp(mp)
        if lp is not None:
            return lp.Objective().Value()
    return None


def install():
    """Called once per worker process, after the import of the code."""
    import col_gen_estimator as cg
    from col_gen_estimator import _dtree_classifier as dt
    from ortools.sat.python import cp_model
    for cls in (cg.BDRMasterProblem, cg.DTreeMasterProblem):
        for m in ('generate_mp', 'solve_rmp', 'add_column', 'solve_ip'):
            _wrap(cls, m, m)
    for cls in (cg.BDRSubProblem, cg.BDRHeuristic, cg.DTreeSubProblem,
                dt.DTreeSubProblemSat, dt.DTreeSubProblemOld,
                cg.DTreeSubProblemHeuristic):
        _wrap(cls, 'generate_columns', 'generate')
    orig = cp_model.CpSolver.Solve

    def Solve(self, *a, **k):
        if _state['workers']:
            self.parameters.num_search_workers = _state['workers']
        f = _state['fault'] and _state['fault']('cp', _phase(), self)
        if f is None:
            return orig(self, *a, **k)
        old = self.parameters.max_deterministic_time
        self.parameters.max_deterministic_time = f
        try:
            return orig(self, *a, **k)
        finally:
            self.parameters.max_deterministic_time = old
    cp_model.CpSolver.Solve = Solve
    from ortools.linear_solver import pywraplp
    threads = pywraplp.Solver.SetNumThreads

    def SetNumThreads(self, n):
        return threads(self, _state['workers'] or n)
    pywraplp.Solver.SetNumThreads = SetNumThreads
    msolve = pywraplp.Solver.Solve

    def MSolve(self, *a):
        f = _state['fault'] and _state['fault']('mp', _phase(), self)
        if f is not None:
            if _state['rec'] is not None and _phase() == 'generate':
                _state['rec'].status.append(f)
            return f
        for f in list(_state['before']):
            f(self)
        if _state['workers'] and 'SAT' in self.SolverVersion().upper():
            threads(self, _state['workers'])
        st = msolve(self, *a)
        if _state['rec'] is not None:
            _state['rec'].status.append(st)
        for f in list(_state['after']):
            f(self, st)
        return st
    pywraplp.Solver.Solve = MSolve


def _phase():
    return _state['phase'][-1] if _state['phase'] else None


def start(cap=400, workers=1, fault=None):
    rec = Recorder()
    _state.update(rec=rec, cap=cap, iters=0, workers=workers, phase=[],
                  fault=fault, open=set())
    return rec


def stop():
    _state.update(rec=None, cap=None, iters=0, workers=1, before=[],
                  after=[], fault=None, phase=[])


def on_solve(before=None, after=None):
    if before:
        _state['before'].append(before)
    if after:
        _state['after'].append(after)


def proven(est, rec):
    """True when every pricing solve of the last iteration was finished."""
    for level in est.subproblems:
        for sp in level:
            if sp.gaps_ and sp.gaps_[-1] != 0:
                return False
    return all(s == 0 for s in rec.status)


def snapshot(o):
    return copy.deepcopy(o)
