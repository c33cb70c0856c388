"""C04: the input contract of training and prediction."""
import numpy as np

from rv import gen, oracle, probe, shapes
from rv.checks import c12
from rv.checks.c14 import tree_of

RULE = """All classifiers trained on and asked to predict malformed matrices
and labels (non-finite values anywhere, wrong dimensions, lengths, types, one
or three classes) in random order with well-formed ones in many containers and
numeric types; the exceptions, the trained state, the arrays passed in (deep
comparison before and after) and the reported classes are checked, and every
training on well-formed data is judged by the rule and tree oracles.
Non-trivial: a malformed and a well-formed call on one model; distinct by
(data, defects, containers)."""
ASSUMPTIONS = ["sparse matrices, which training does not support, are only "
               "passed to prediction",
               "an untrained model is one whose prediction raises "
               "NotFittedError"]
LIMITS = {'quick': dict(cases=8000, budget=100),
          'thorough': dict(cases=200000, budget=600)}
MINIMUM = {'malformed trainings': 2500, 'malformed predictions': 1500,
           'untrained models': 2500, 'well-formed trainings': 900,
           'arrays compared': 5000, 'too few classes': 200,
           'too many classes': 100, 'containers': 900,
           'label containers': 900}


def setup():
    probe.install()


def bad_matrix(cx, X, training):
    """(name, matrix that is not a finite two-dimensional one)."""
    X = np.array(X, dtype=float)
    n, m = X.shape
    kinds = ['nan', 'inf', '-inf', 'nan', 'inf', '1d', 'flat', 'scalar', '3d',
             'none', 'ragged', 'text', 'complex', 'object nan', 'list nan',
             'frame nan', 'float32 inf', 'all nan', 'big list']
    if training:
        kinds += ['no features', 'no rows']
    k = cx.pick(kinds)
    i, j = cx.pick([0, n - 1, cx.int(0, n - 1)]), cx.int(0, m - 1)
    v = {'inf': np.inf, '-inf': -np.inf, 'float32 inf': np.inf}.get(k, np.nan)
    if k in ('nan', 'inf', '-inf', 'object nan', 'list nan', 'frame nan',
             'float32 inf'):
        X[i, j] = v
        if k == 'object nan':
            return k, X.astype(object)
        if k == 'list nan':
            return k, X.tolist()
        if k == 'float32 inf':
            return k, X.astype(np.float32)
        if k == 'frame nan':
            import pandas as pd
            return k, pd.DataFrame(X)
        return k, X
    if k == 'all nan':
        X[:] = np.nan
        return k, X
    if k == '1d':
        return k, X[:, j]
    if k == 'flat':
        return k, X.ravel().tolist()
    if k == 'scalar':
        return k, 1.0
    if k == '3d':
        return k, X[:, :, None]
    if k == 'none':
        return k, None
    if k == 'ragged':
        return k, [[0.] * m for _ in range(n - 1)] + [[0.] * (m + 1)] \
            if n > 1 else 1.0
    if k == 'text':
        A = X.astype(object)
        A[i, j] = 'x'
        return k, A.tolist()
    if k == 'complex':
        return k, X + 1j
    if k == 'no features':
        return k, np.zeros((n, 0))
    if k == 'no rows':
        return k, np.zeros((0, m))
    return k, [[[float(v) for v in r]] for r in X]      # big list: 3-D


def bad_labels(cx, y):
    n = len(y)
    k = cx.pick(['short', 'long', 'none', '2d', 'scalar', 'nan', 'inf',
                 'empty'])
    if k == 'short':
        return k, y[:n - 1]
    if k == 'long':
        return k, np.concatenate([y, y[:1]])
    if k == 'none':
        return k, None
    if k == '2d':
        return k, np.column_stack([y, y])
    if k == 'scalar':
        return k, 1
    if k == 'empty':
        return k, []
    z = np.array(np.unique(y, return_inverse=True)[1], dtype=float)
    z[cx.int(0, n - 1)] = np.nan if k == 'nan' else np.inf
    return k, z


def label_values(cx, k):
    kind = cx.pick(['range', 'ints', 'floats', 'texts', 'bools', 'small'])
    if kind == 'bools' and k == 2:
        return np.array([False, True])
    if kind == 'ints':
        return np.sort(cx.rng.choice(np.arange(-50, 50), k, replace=False))
    if kind == 'floats':
        return np.sort(cx.rng.choice(np.arange(-5., 20.), k, replace=False))
    if kind == 'texts':
        return np.array(sorted(['b', 'Ab', '10', '9', 'zz'][:k]))
    if kind == 'small':
        return np.arange(k).astype(np.uint8)
    return np.arange(k)


def label_container(cx, y):
    import pandas as pd
    name = cx.pick(['array', 'list', 'series', 'column', 'readonly',
                    'strided', 'series index', 'object'])
    if name == 'list':
        return name, y.tolist()
    if name == 'series':
        return name, pd.Series(y)
    if name == 'series index':
        return name, pd.Series(y, index=cx.rng.permutation(len(y)) + 5)
    if name == 'column':
        return name, y.reshape(-1, 1).copy()
    if name == 'readonly':
        z = y.copy()
        z.setflags(write=False)
        return name, z
    if name == 'strided':
        return name, np.repeat(y, 2)[::2]
    if name == 'object' and y.dtype.kind == 'U':
        return name, y.astype(object)
    return 'array', y.copy()


class Scripted:
    """The base classifier over problems that never generate a column."""

    def __init__(self, cx):
        from col_gen_estimator import (
            BaseMasterProblem, BaseSubproblem, ColGenClassifier)

        class M(BaseMasterProblem):
            def solve_rmp(self, solver_params=''):
                return 0

            def solve_ip(self, solver_params=''):
                return True

        class S(BaseSubproblem):
            def generate_columns(self, X, y, dual_costs, params):
                return []
        self.est = ColGenClassifier(
            master_problem=M(), subproblems=[[S()]], rmp_is_ip=cx.flip(.5))


def untrained(cx, kind, est, X):
    from sklearn.exceptions import NotFittedError
    from sklearn.utils.validation import check_is_fitted
    cx.count('untrained models')
    if kind == 'base':
        cx.raises(NotFittedError, 'untrained model looks trained',
                  check_is_fitted, est, 'is_fitted_')
        return
    cx.raises(NotFittedError, 'prediction with an untrained model',
              est.predict, X)


def guarded(cx, what, fn, *args):
    """Calls fn and checks that its arguments are unchanged."""
    fr = [None if a is None or np.isscalar(a) else shapes.frozen(a)
          for a in args]
    try:
        return fn(*args)
    finally:
        for a, f in zip(args, fr):
            if f is not None:
                cx.count('arrays compared')
                cx.check(shapes.unchanged(a, f), 'an array was modified',
                         what)


def malformed_fit(cx, kind, est, P, labels):
    r = cx.rng.rand()
    y = labels[P.y]
    X = np.array(P.X, float)
    if r < .5:
        what, X = bad_matrix(cx, X, True)
    elif r < .75:
        what, y = bad_labels(cx, y)
    elif r < .9 or kind != 'rule' or len(y) < 3:
        what = 'one class'
        cx.count('too few classes')
        y = np.repeat(labels[cx.int(0, 1):][:1], len(y))
    else:
        what = 'three classes'
        cx.count('too many classes')
        y = np.array([-1, 3, 8, 9][:cx.int(3, 4)])[
            np.arange(len(y)) % cx.int(3, 4) % 3]
        if len(set(y.tolist())) < 3:
            y[:3] = [-1, 3, 8]
    cx.count('malformed trainings')
    cx.raises(ValueError, 'training on malformed data (%s)' % what,
              guarded, cx, 'training on ' + what, est.fit, X, y)
    return what


def malformed_predict(cx, kind, est, P):
    if kind == 'base':
        return None
    what, X = bad_matrix(cx, P.X, False)
    cx.count('malformed predictions')
    cx.raises(ValueError, 'prediction of malformed data (%s)' % what,
              guarded, cx, 'prediction of ' + what, est.predict, X)
    return what


def sort_rows(P):
    """The classes one after the other."""
    o = np.argsort(P.y, kind='stable')
    P.X, P.y = P.X[o], P.y[o]


def case(cx):
    gen.seed_global(cx)
    kind = cx.pick(['rule', 'rule', 'tree', 'tree', 'base'])
    if kind == 'rule':
        P = gen.rule_problem(cx, mmax=5, nmax=16, tall=.04)
        if len(P.y) > 50 and cx.flip(.6):
            sort_rows(P)
        est = gen.rule_estimator(P, cx.flip(.4))
        k = 2
    else:
        tall = cx.flip(.04)
        P = gen.tree_problem(cx, depth=cx.pick([1, 2]),
                             nmin=150 if tall else 3,
                             nmax=320 if tall else 14, max_splits=6, mmax=4)
        k = P.k
        if tall and cx.flip(.6):
            sort_rows(P)
        if kind == 'tree':
            O = gen.build(P)
            est = gen.tree_estimator(
                P, O, max_iterations=cx.pick([-1, 2, 4]),
                **gen.tree_options(cx, old=not tall))
        else:
            est = Scripted(cx).est
    cx.count('many rows', len(P.y) > 50)
    labels = label_values(cx, k)
    done = []
    untrained(cx, kind, est, P.X)
    for _ in range(cx.int(0, 3)):
        done.append(malformed_fit(cx, kind, est, P, labels))
        untrained(cx, kind, est, P.X)
    # A training on good data, in some container.
    integral = bool((np.asarray(P.X) == np.round(P.X)).all())
    name, X = shapes.containers(cx, P.X, integral, sparse=False, n=1)[0]
    lname, y = label_container(cx, labels[P.y])
    cx.count('containers')
    cx.count('label containers')
    cx.count('well-formed trainings')
    rec = probe.start(cap=300)
    ret = cx.call('fit (%s, labels %s)' % (name, lname), guarded, cx,
                  'training (%s)' % name, est.fit, X, y)
    probe.stop()
    cx.check(ret is est, 'fit does not return the model')
    classes = np.asarray(est.classes_)
    cx.check(classes.tolist() == sorted(set(labels.tolist())),
             'reported classes', '%s for labels %s' % (classes, labels))
    if kind != 'base':
        T = np.vstack([P.X[:20], gen.unseen(cx, P, 5)]) \
            if kind == 'tree' else \
            np.vstack([P.X[:20], cx.rng.randint(0, 2, (5, P.X.shape[1]))])
        want = expected(cx, kind, est, P, T, rec, O if kind == 'tree'
                        else None)
        tint = bool((T == np.round(T)).all() and np.abs(T).max() < 100)
        for tname, M in shapes.containers(cx, T, tint):
            cx.count('containers')
            got = cx.call('predict (%s)' % tname, guarded, cx,
                          'prediction (%s)' % tname, est.predict, M)
            cx.check(np.asarray(got).tolist() == labels[want].tolist(),
                     'prediction of a container', '%s: %s instead of %s' % (
                         tname, got, labels[want]))
            done.append(malformed_predict(cx, kind, est, P))
    cx.nontrivial((kind, P.y.tolist(), done, name, lname))
    cx.sample(dict(kind=kind, rows=P.X.shape, defects=done, container=name,
                   labels=lname))


def expected(cx, kind, est, P, T, rec, O):
    """Class indices by the trained model; judges the training."""
    if kind == 'rule':
        adds = [tuple(e['args'][0]) for e in rec.of('add_column') if e['ret']]
        c12.judge(cx, P, est.master_problem, [()] + adds)
        return oracle.dnf(T, est.master_problem.explanation).astype(int)
    sel = est.master_problem.selected_paths
    tree_of(cx, P, sel)
    hits = int((follow(P, sel, P.X) == P.y).sum())
    cx.check(hits == sum(p.cost for p in sel),
             'correct rows and selected counts')
    first = [gen.make_path(*p) for p in P.paths]
    added = [e['args'][0] for e in rec.of('add_column') if e['ret']]
    cx.check(hits == oracle.best_of_paths(P, first + added),
             'not the best tree over the paths found')
    return follow(P, sel, T)


def follow(P, sel, T):
    want = np.full(len(T), -1)
    for p in sel:
        want[oracle.route(P, int(p.leaf_id), oracle.assign_of(p), T)] = \
            p.target
    return want
