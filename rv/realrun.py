"""Trainings of the real classifiers, recorded in the event format of the
engine and run under the virtual clock: every call of the real master and
pricing objects takes a scripted duration."""
import numpy as np

from . import clock, engine, gen, probe
from .core import Runaway, Violation

_state = {'log': None, 'dt': None, 'open': set()}
NAMES = {'generate_mp': 'generate_mp', 'solve_rmp': 'solve_rmp',
         'add_column': 'add_column', 'solve_ip': 'solve_ip',
         'update_subproblem': 'update', 'generate_columns': 'generate'}
PARTS = {'generate_mp': 'mp', 'solve_rmp': 'master', 'add_column': 'add',
         'solve_ip': 'ip', 'update_subproblem': 'update',
         'generate_columns': 'sp'}


def plain(v):
    """The value of a column or of duals, comparable with ==."""
    if hasattr(v, 'leaf_id'):
        return ('path', int(v.leaf_id), plain(v.node_ids), plain(v.splits),
                plain(v.target), plain(v.cost))
    if isinstance(v, dict):
        return tuple(sorted((str(k), plain(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple, np.ndarray)):
        return tuple(plain(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return tuple(sorted(map(repr, v)))
    return v.item() if isinstance(v, np.generic) else v


def _arg(a, k, i, name):
    return a[i] if len(a) > i else k.get(name)


def _hook(cls, name):
    orig = getattr(cls, name)

    def wrapper(self, *a, **k):
        log, key = _state['log'], (id(self), name)
        if log is None or key in _state['open']:
            return orig(self, *a, **k)
        e = log.add(NAMES[name], obj=self)
        if name in ('generate_mp', 'update_subproblem', 'generate_columns'):
            e.update(X=np.array(_arg(a, k, 0, 'X')),
                     y=np.array(_arg(a, k, 1, 'y')))
        if name in ('update_subproblem', 'generate_columns'):
            e['duals'] = plain(_arg(a, k, 2, 'dual_costs'))
        if name == 'generate_columns':
            e['params'] = _arg(a, k, 3, 'params')
        if name in ('solve_rmp', 'solve_ip'):
            e['params'] = _arg(a, k, 0, 'solver_params')
        if name == 'add_column':
            e['snap'] = plain(a[0] if a else next(iter(k.values())))
        _state['open'].add(key)
        try:
            res = orig(self, *a, **k)
        finally:
            _state['open'].discard(key)
        clock.advance(_state['dt'](PARTS[name]))
        e['t1'] = clock.now()
        if name == 'solve_rmp':
            e.update(duals=plain(res),
                     improved=bool(self.rmp_objective_improved()))
        if name == 'generate_columns':
            e['cols'] = [plain(c) for c in res]
        if name == 'add_column':
            e['accepted'] = bool(res)
        if name == 'solve_ip':
            e['ok'] = bool(res)
        return res
    wrapper.__name__ = name
    setattr(cls, name, wrapper)


def install():
    import col_gen_estimator as cg
    from col_gen_estimator import _dtree_classifier as dt
    probe.install()
    for cls in (cg.BDRMasterProblem, cg.DTreeMasterProblem):
        for n in ('generate_mp', 'solve_rmp', 'add_column', 'solve_ip'):
            _hook(cls, n)
    for cls in (cg.BDRSubProblem, cg.BDRHeuristic, dt.DTreeSubProblemSat,
                dt.DTreeSubProblemOld, cg.DTreeSubProblemHeuristic):
        for n in ('update_subproblem', 'generate_columns'):
            _hook(cls, n)


def training_run(cx, n_fits=1):
    """Like engine.training_run, with a real classifier."""
    gen.seed_global(cx)
    cx.count('real trainings')
    unit = cx.pick([1., 1., 1., 60., 3600.])
    tag = lambda s: '%s-%d' % (s, cx.int(0, 99)) if cx.flip(.8) else ''
    rule = cx.flip(.4)
    limits = dict(
        max_iterations=cx.pick([-1, -1, -1, -5, 1, 2, 3, cx.int(1, 30)]))
    strings = dict(rmp_solver_params=tag('rmp'),
                   master_ip_solver_params=tag('ip'))
    if rule:
        P = gen.rule_problem(cx, mmax=5, nmax=14)
        heuristic = cx.flip(.5)
        n = [1, 1] if heuristic else [1]
        sub = [[tag('sp-%d' % i)] for i in range(len(n))]
        clf = gen.rule_estimator(P, heuristic, subproblem_params=sub,
                                 **limits, **strings)
        k, per = 2, sub
    else:
        many = cx.flip(.4)              # enough iterations for cuts
        P = gen.tree_problem(cx, nmax=12,
                             depth=2 if many else cx.pick([1, 2, 2]),
                             max_splits=8 if many else 6, mmax=4, many=many)
        limits['time_limit'] = cx.pick(
            [-1, -1, -3, .5, 1, 2, 5, 12, 15, 20, 30]) * unit
        opt = gen.tree_options(cx)
        if many:
            limits['max_iterations'] = -1
            opt.update(num_master_cuts_round=cx.int(2, 5),
                       master_beta_constraints_as_cuts=cx.flip(.8))
        O = gen.build(P)
        sub = tag('sp')
        clf = gen.tree_estimator(P, O, subproblem_params=sub, **opt,
                                 **limits, **strings)
        leaves = P.n_leaves * (P.k if opt['use_old_sp'] else 1)
        n, k = [1, leaves], P.k
        per = [[''], [sub] * leaves]        # the heuristic takes none
    log = engine.Log()
    for f in range(n_fits):
        if f and rule and cx.flip(.5):
            P = gen.rule_problem(cx, mmax=5, nmax=14)
        if f and cx.flip(.5):
            limits['max_iterations'] = cx.pick([-1, 1, 2, 4])
            clf.set_params(max_iterations=limits['max_iterations'])
        cfg = dict(shape=n, time_limit=-1, rmp_is_ip=True,
                   subproblem_params=per, real=True)
        cfg.update(limits, **strings)
        labels = np.sort(cx.rng.choice(np.arange(-5, 30), k, replace=False))
        script = engine.Script(cx, n, unit)
        log.ev = []
        _state.update(log=log, dt=script.dt, open=set())
        probe.start(cap=600)
        clock.virtual(1e6 * cx.rng.rand())
        start = clock.now()
        had = hasattr(clf, 'is_fitted_')
        err = None
        try:
            ret = clf.fit(P.X, labels[P.y])
        except Runaway as e:
            raise Violation('nontermination', str(e), cfg=cfg)
        except Exception as e:          # judged by the trace specification
            err, ret = e, None
        finally:
            end = clock.now()
            clock.real()
            probe.stop()
            _state['log'] = None
        where = {id(sp): (i, j) for i, level in enumerate(clf.subproblems)
                 for j, sp in enumerate(level)}
        cx.check([len(x) for x in clf.subproblems] == n,
                 'number of pricing problems', '%s instead of %s' % (
                     [len(x) for x in clf.subproblems], n))
        for e in log.ev:
            o = e.pop('obj')
            if e['kind'] in ('update', 'generate'):
                cx.check(id(o) in where, 'unknown pricing problem used')
                e['pos'] = where[id(o)]
            else:
                cx.check(o is clf.master_problem,
                         'unknown master problem used')
        yield clf, cfg, log.ev, dict(
            error=err, ret=ret, start=start, end=end, X=P.X, y=P.y,
            labels=labels, was_fitted=had, ip_ok=True)
