"""C06: hyperparameters and repeated training."""
import copy
import inspect

import numpy as np

from rv import gen, oracle, probe
from rv.checks import c12, c20
from rv.checks.c14 import tree_of

RULE = """Models with random values for every constructor argument: reading,
showing, cloning (trained and untrained), changing parameters through
set_params (before, between and after trainings), grid searches, and repeated
training on the same and on other data (other numbers of rows, features,
classes; other tree definitions); repeated trainings are compared with fresh
models with the same parameters (rule or tree, predictions, iterations, columns)
and judged by the oracles of the changed problem. Non-trivial: a second
training with changed data or parameters; distinct by (data, changes)."""
ASSUMPTIONS = ["the wall times the pricing reports to its tuner are made "
               "constant so that trainings are reproducible",
               "cloning the base classifier requires problems that can be "
               "copied"]
LIMITS = {'quick': dict(cases=1700, budget=100),
          'thorough': dict(cases=42500, budget=600)}
MINIMUM = {'arguments read': 6000, 'clones': 600, 'changed parameters': 900,
           'repeated trainings': 900, 'grid searches': 60,
           'trainings compared with fresh models': 900, 'rules': 250,
           'trees': 250, 'virtual arguments': 60}


def setup():
    probe.install()
    from ortools.sat.python import cp_model
    cp_model.CpSolver.WallTime = lambda self: .01


# What the caller supplies of the definition objects.
FIELDS = dict(
    Path=['leaf_id', 'node_ids', 'splits', 'target', 'cost'],
    Leaf=['id', 'left_nodes', 'right_nodes'],
    Node=['id', 'candidate_splits'],
    Split=['id', 'feature', 'threshold', 'left_rows', 'right_rows'],
    Row=['weight', 'removed_from_sp', 'removed_from_master', 'left_splits',
         'right_splits', 'reachable_leaves'])


def same_value(a, b):
    """Structural equality of parameter values."""
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and \
            np.array_equal(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_value, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(
            same_value(a[k], b[k]) for k in a)
    fields = FIELDS.get(type(a).__name__)
    if fields:
        return all(same_value(getattr(a, f), getattr(b, f)) for f in fields)
    if isinstance(a, (bool, int, float, str, set, type(None))):
        return a == b
    return True


def read_back(cx, est, given, what):
    """The arguments are those given (the very objects) and are shown."""
    got = cx.call('get_params', est.get_params, deep=False)
    for k, v in given.items():
        cx.count('arguments read')
        cx.check(k in got, 'argument cannot be read', '%s of %s' % (k, what))
        cx.check(got[k] is v or same_value(got[k], v),
                 'argument read back differs',
                 '%s: %r instead of %r (%s)' % (k, got[k], v, what))
    r = cx.call('repr', repr, est)
    cx.check(type(est).__name__ in r, 'model cannot be shown', r[:200])
    from sklearn import set_config
    set_config(print_changed_only=False)
    r = est.__repr__(N_CHAR_MAX=10 ** 7)
    set_config(print_changed_only=True)
    for k, v in given.items():
        if isinstance(v, (bool, int, float, str)):
            cx.check('%s=%r' % (k, v) in r.replace('\n', ' '),
                     'argument is not shown', '%s=%r in %s' % (k, v, r[:800]))


def cloned(cx, est, given, what, X):
    """Clones are equal in arguments and untrained."""
    from sklearn.base import clone
    from sklearn.exceptions import NotFittedError
    c = cx.call('clone', clone, est)
    cx.count('clones')
    cx.check(type(c) is type(est) and c is not est, 'type of a clone')
    got = c.get_params(deep=False)
    for k, v in given.items():
        cx.check(k in got and same_value(got[k], v), 'argument of a clone',
                 '%s: %r instead of %r (%s)' % (k, got.get(k), v, what))
    if X is not None:
        cx.raises(NotFittedError, 'a clone looks trained', c.predict, X)
    return c


def labels_of(cx, P):
    """Labels of the classes; often some of those used before."""
    P.labels = np.sort(cx.rng.choice(6, P.k, replace=False)) \
        if cx.flip(.5) else np.arange(P.k)
    if cx.flip(.2):
        P.labels = np.sort(np.array(['a', 'b', 'B', 'c', '1', '2'])[P.labels])


def train(cx, est, P, seed, what):
    import random
    random.seed(seed)
    np.random.seed(seed)
    rec = probe.start(cap=300)
    cx.call('fit (%s)' % what, est.fit, P.X,
            P.labels[P.y] if hasattr(P, 'labels') else P.y)
    probe.stop()
    return rec


def summary(est, T):
    mp = est.master_problem
    if hasattr(mp, 'explanation'):
        model = [list(map(int, c)) for c in mp.explanation]
    else:
        model = sorted((int(p.leaf_id), sorted(oracle.assign_of(p).items()),
                        int(p.target), float(p.cost))
                       for p in mp.selected_paths)
    return dict(model=model, optimal=bool(est.mp_optimal_),
                iterations=int(est.performed_iter_),
                improving=int(est.num_improving_iter_),
                columns=[list(map(int, l)) for l in est.num_col_added_sp_],
                classes=np.asarray(est.classes_).tolist(),
                predictions=np.asarray(est.predict(T)).tolist())


def versus_fresh(cx, est, fresh, P, T, what):
    """est (used before) and fresh are trained on P; returns est's events."""
    seed = cx.int(0, 10 ** 6)
    rec = train(cx, est, P, seed, what)
    a = summary(est, T)
    train(cx, fresh, P, seed, 'fresh')
    b = summary(fresh, T)
    cx.count('trainings compared with fresh models')
    for k in b:
        cx.check(a[k] == b[k], 'differs from a fresh model: ' + k,
                 '%s: %s instead of %s' % (what, a[k], b[k]), problem=P)
    return rec


def case(cx):
    gen.seed_global(cx)
    k = cx.pick(['rule', 'rule', 'tree', 'tree', 'tree', 'grid', 'base'])
    if k == 'grid':
        grid(cx) if cx.flip(.5) else rule(cx)
    else:
        dict(rule=rule, tree=tree, base=base)[k](cx)


# ---------------------------------------------------------------------- rules
def rule_arguments(cx, heur):
    a = dict(max_iterations=cx.pick([-1, -1, 1, 2, 3, -5]),
             C=cx.pick([1, 2, 3, 4, 5, 6, 8, 10, 12, 1, 2, 3, 5, 10, 0, 50]),
             p=cx.pick([1, 2, .5, 10, 3.7, 1.25] * 2 + [0, 100]),
             rmp_solver_params=cx.pick(['', 'a', 'x:1']),
             rmp_solver=cx.pick(['glop', 'glop', 'clp']),
             master_ip_solver_params=cx.pick(['', 'b']),
             subproblem_solver=cx.pick(['cbc', 'cbc', 'sat', 'scip']),
             subproblem_params=cx.pick([[['']] * 2, [['c'], ['d']]])
             if heur else cx.pick([[['']], [['c']]]))
    return a


def apply(cx, est, args, new):
    """Changes the arguments in one or several calls."""
    cx.count('changed parameters', len(new))
    if cx.flip(.3):
        for k, v in new.items():
            r = cx.call('set_params', est.set_params, **{k: v})
    else:
        r = cx.call('set_params', est.set_params, **new)
    cx.check(r is est, 'set_params does not return the model')
    args.update(new)


def some(cx, new, always=()):
    keep = [k for k in new if cx.flip(.5)] or [cx.pick(sorted(new))]
    return {k: new[k] for k in new if k in keep or k in always}


def rule(cx):
    import col_gen_estimator as cg
    cx.count('rules')
    heur = cx.flip(.4)
    cls = cg.BooleanDecisionRuleClassifierWithHeuristic if heur \
        else cg.BooleanDecisionRuleClassifier
    args = rule_arguments(cx, heur)
    if cx.flip(.15):                    # defaults
        for k in list(args):
            if cx.flip(.6):
                args[k] = inspect.signature(cls.__init__).parameters[
                    k].default
    est = cls(**args)
    read_back(cx, est, args, 'new')
    P = gen.rule_problem(cx, mmax=5, nmax=16)
    changes = []
    for step in range(cx.int(2, 4)):
        what = []
        if cx.flip(.5):
            P = gen.rule_problem(cx, mmax=5, nmax=16)
            what.append('data')
        if cx.flip(.6):
            new = some(cx, rule_arguments(cx, heur))
            apply(cx, est, args, new)
            what += sorted(new)
        if cx.flip(.3):
            c = cloned(cx, est, args, 'step %d' % step, P.X)
            if cx.flip(.3):
                est = c
        T = np.vstack([P.X, cx.rng.randint(0, 2, (6, P.X.shape[1]))])
        if step:
            cx.count('repeated trainings')
        rec = versus_fresh(cx, est, cls(**args), P, T,
                           'step %d with new %s' % (step, what))
        read_back(cx, est, args, 'trained')
        judge_rule(cx, P, est, rec, args)
        changes.append(what)
    cx.nontrivial((repr(P), changes, sorted(map(repr, args.items()))))
    cx.sample(dict(arguments=args, changes=changes))


def judge_rule(cx, P, est, rec, args):
    P.C, P.p = args['C'], args['p']
    adds = [tuple(e['args'][0]) for e in rec.of('add_column') if e['ret']]
    c12.judge(cx, P, est.master_problem, [()] + adds)
    m = args['max_iterations']
    solves = rec.of('solve_rmp')
    cx.check(m < 0 or len(solves) <= m, 'iteration limit has no effect',
             '%d iterations' % len(solves))
    for e in solves:
        cx.check(list(e['args']) + list(e['kwargs'].values()) ==
                 [args['rmp_solver_params']], 'parameters of the master solve',
                 '%s %s' % (e['args'], e['kwargs']))
    for e in rec.of('solve_ip'):
        cx.check(list(e['args']) + list(e['kwargs'].values()) ==
                 [args['master_ip_solver_params']],
                 'parameters of the integer solve')
    if est.mp_optimal_:
        lam, mu = solves[-1]['ret']
        full = oracle.rule_lp(P.X, P.y, list(oracle.all_clauses(
            P.X.shape[1], P.C)), P.C, P.p)
        value = float(np.sum(mu) - lam * P.C)
        cx.check(abs(value - full) <= 2e-4 * (1 + abs(full)) + 1e-4,
                 'optimum with the changed parameters',
                 '%.9g instead of %.9g' % (value, full), problem=P)


def grid(cx):
    """Scores and refit of a grid search equal those of fresh models."""
    from sklearn.model_selection import GridSearchCV, KFold
    import col_gen_estimator as cg
    cx.count('grid searches')
    heur = cx.flip(.4)
    cls = cg.BooleanDecisionRuleClassifierWithHeuristic if heur \
        else cg.BooleanDecisionRuleClassifier
    while True:
        P = gen.rule_problem(cx, mmax=4, nmax=16)
        n = len(P.y)
        if n < 8:
            continue
        order = cx.rng.permutation(n)
        folds = [(order[1::2], order[::2]), (order[::2], order[1::2])]
        if all(len(set(P.y[t].tolist())) == 2 for t, _ in folds):
            break
    space = dict(C=[1, 2, 3, 6, 10], p=[1, .5, 4], max_iterations=[1, 2, -1])
    g = {k: sorted(cx.rng.choice(v, 2, replace=False).tolist())
         for k, v in space.items() if cx.flip(.7)} or dict(C=[1, 8])
    g = {k: [int(x) if float(x).is_integer() else x for x in v]
         for k, v in g.items()}
    base = dict(C=4, p=2)
    est = cls(**base)
    if cx.flip(.5):
        cx.call('fit', est.fit, P.X, P.y)
    s = GridSearchCV(est, g, cv=folds, error_score='raise')
    cx.call('grid search', s.fit, P.X, P.y)
    for i, q in enumerate(s.cv_results_['params']):
        cx.count('changed parameters', len(q))
        for f, (tr, te) in enumerate(folds):
            one = cls(**dict(base, **q)).fit(P.X[tr], P.y[tr])
            cx.check(abs(one.score(P.X[te], P.y[te]) -
                         s.cv_results_['split%d_test_score' % f][i]) < 1e-12,
                     'score of a grid search differs from a fresh model',
                     '%s fold %d' % (q, f), problem=P)
    best = cls(**dict(base, **s.best_params_)).fit(P.X, P.y)
    T = np.vstack([P.X, cx.rng.randint(0, 2, (6, P.X.shape[1]))])
    cx.check(np.array_equal(s.predict(T), best.predict(T)),
             'refitted model of a grid search', str(s.best_params_),
             problem=P)
    read_back(cx, s.best_estimator_, dict(base, **s.best_params_), 'grid')
    cx.nontrivial((repr(P), repr(g)))


# ---------------------------------------------------------------------- trees
def tree_arguments(cx, P, O):
    o = dict(max_iterations=cx.pick([-1, -1, 1, 2, 4, 12]),
             time_limit=cx.pick([-1, -1, -2, 10 ** 6]),
             num_master_cuts_round=cx.int(0, 5),
             master_beta_constraints_as_cuts=cx.flip(.5),
             master_generate_cuts=cx.flip(.5),
             use_old_sp=cx.flip(.15),
             master_solver_type=cx.pick(['glop', 'glop', 'glop', 'clp']),
             rmp_solver_params=cx.pick(['', 'q']),
             master_ip_solver_params=cx.pick(['', 'r']),
             subproblem_params=cx.pick(['', 's', 't']))
    return o


def definition(P, O):
    return dict(initial_paths=O.paths, leaves=O.leaves, nodes=O.nodes,
                splits=O.splits, tree_depth=P.depth, targets=O.targets,
                data_rows=O.data_rows)


def tree(cx):
    import col_gen_estimator as cg
    cx.count('trees')
    many = cx.flip(.4)

    def problem():
        P = gen.tree_problem(cx, depth=cx.pick([1, 2, 2]) if not many else 2,
                             nmax=12, max_splits=8, many=many)
        labels_of(cx, P)
        return P, gen.build(P)
    P, O = problem()
    args = definition(P, O)
    args.update(tree_arguments(cx, P, O))
    est = cg.DTreeClassifier(**args)
    read_back(cx, est, args, 'new')
    changes = []
    for step in range(cx.int(2, 3)):
        what = []
        if step and cx.flip(.5):
            P, O = problem()
            new = definition(P, O)
            # The arguments are checked together, at the next training.
            cx.call('set_params', est.set_params, **new)
            cx.count('changed parameters', len(new))
            args.update(new)
            what.append('definition')
        if cx.flip(.6):
            new = some(cx, tree_arguments(cx, P, O))
            apply(cx, est, args, new)
            what += sorted(new)
        if cx.flip(.3):
            c = cloned(cx, est, args, 'step %d' % step, P.X)
            if cx.flip(.3):
                est = c
                args = c.get_params(deep=False)
        if step:
            cx.count('repeated trainings')
        T = np.vstack([P.X, gen.unseen(cx, P, 5)])
        fresh = cg.DTreeClassifier(**dict(args, **definition(P, gen.build(P))))
        rec = versus_fresh(cx, est, fresh, P, T, 'step %d with new %s' % (
            step, what))
        read_back(cx, est, args, 'trained')
        tree_of(cx, P, est.master_problem.selected_paths)
        c20.judge(cx, P, est, rec, [gen.make_path(*p) for p in P.paths],
                  y=P.labels[P.y])
        solves = rec.of('solve_rmp')
        m = args['max_iterations']
        cx.check(m < 0 or len(solves) <= m, 'iteration limit has no effect')
        cuts = sum(len(e['ret'][4]) for e in solves)
        cx.check(not cuts or (args['master_generate_cuts'] and
                              args['num_master_cuts_round'] > 0),
                 'cuts although they are switched off')
        for kind, k in (('solve_rmp', 'rmp_solver_params'),
                        ('solve_ip', 'master_ip_solver_params')):
            for e in rec.of(kind):
                cx.check(list(e['args']) + list(e['kwargs'].values()) ==
                         [args[k]], 'parameters of ' + kind)
        subs = {type(e['obj']).__name__ for e in rec.of('generate')}
        if 'DTreeSubProblemOld' in subs or 'DTreeSubProblemSat' in subs:
            cx.check(('DTreeSubProblemOld' in subs) == bool(
                args['use_old_sp']), 'use_old_sp has no effect', str(subs))
        # The parameters of the exact pricing arrive there.
        for e in rec.of('generate'):
            if 'Heuristic' not in type(e['obj']).__name__:
                got = (list(e['args']) + list(e['kwargs'].values()))[3:4]
                cx.check(got == [args['subproblem_params']],
                         'parameters of the pricing', '%s' % got)
                break
        changes.append(what)
    cx.nontrivial((P.size(), changes, P.y.tolist()))
    cx.sample(dict(size=P.size(), changes=changes))


# ----------------------------------------------------------------------- base
def base(cx):
    from col_gen_estimator import ColGenClassifier
    cx.count('virtual arguments')
    Master, Sub, seen = problems()
    shape = [cx.int(1, 3) for _ in range(cx.int(1, 3))]
    args = dict(
        max_iterations=cx.int(-3, 9), time_limit=cx.int(-3, 99),
        master_problem=Master(), subproblems=[
            [Sub() for _ in range(n)] for n in shape],
        rmp_is_ip=cx.flip(.5), rmp_solver_params='m%d' % cx.int(0, 9),
        master_ip_solver_params='i%d' % cx.int(0, 9),
        subproblem_params=[['s%d' % cx.int(0, 9) for _ in range(n)]
                           for n in shape])
    est = ColGenClassifier(**args)
    read_back(cx, est, args, 'base')
    cloned(cx, est, args, 'base', None)
    X = cx.rng.randn(6, 2)
    y = np.array([0, 1, 0, 1, 1, 0])
    for _ in range(2):
        del seen[:]
        cx.call('fit', est.fit, X, y)
        cx.check(seen == ['mp', args['rmp_solver_params']] + (
            [args['master_ip_solver_params']] if args['rmp_is_ip'] else []),
            'parameters passed to the master', str(seen))
        new = dict(rmp_solver_params='n%d' % cx.int(0, 9),
                   rmp_is_ip=cx.flip(.5), max_iterations=cx.int(-3, 9))
        apply(cx, est, args, new)
        read_back(cx, est, args, 'base')
    cx.nontrivial((shape, repr(sorted(k for k in args)), args[
        'max_iterations'], args['time_limit']))


def problems():
    """Problems of the base classifier that can be copied."""
    from col_gen_estimator import BaseMasterProblem, BaseSubproblem
    seen = []

    def copyable(o):
        for k, v in list(vars(o).items()):
            try:
                copy.deepcopy(v)
            except Exception:
                setattr(o, k, None)

    class Master(BaseMasterProblem):
        def __init__(self):
            super().__init__()
            copyable(self)

        def generate_mp(self, X, y):
            seen.append('mp')

        def solve_rmp(self, solver_params=''):
            seen.append(solver_params)
            return 0

        def rmp_objective_improved(self):
            return False

        def add_column(self, column):
            return False

        def solve_ip(self, solver_params=''):
            seen.append(solver_params)
            return True

    class Sub(BaseSubproblem):
        def __init__(self):
            super().__init__()
            copyable(self)

        def update_subproblem(self, X, y, dual_costs):
            pass

        def generate_columns(self, X, y, dual_costs, params):
            return []
    return Master, Sub, seen
