"""C05: label encoding and decoding."""
import numpy as np

from rv import gen, oracle, probe
from rv.checks.c04 import follow, label_container, sort_rows

RULE = """Rules and trees (2-4 classes) trained with labels of many
representations (extreme, negative and non-contiguous integers of all widths,
whole-number floats, booleans, texts whose order differs from their numeric or
case-insensitive order, categories); predictions of seen and unseen rows, also
of batches that get one class only, are compared with the label of the class
that the trained clauses or paths assign independently; rule trainings are
repeated under order-preserving renamings. Non-trivial: at least two classes
predicted; distinct by (labels, data)."""
ASSUMPTIONS = ["class indices number the sorted distinct labels",
               "rule training is deterministic"]
LIMITS = {'quick': dict(cases=5700, budget=100),
          'thorough': dict(cases=142500, budget=600)}
MINIMUM = {'rules': 700, 'trees': 700, 'renamings': 700,
           'predictions': 20000, 'three or more classes': 250,
           'one class batches': 300, 'texts': 250, 'floats': 250,
           'booleans': 150, 'integers': 500}
TEXTS = ['b', 'B', 'Ab', '10', '9', '-1', 'zz', 'z', ' ', 'no', 'yes', 'True',
         'False', 'ä', '0', '1', 'a long label with spaces', 'nan', 'None']


def setup():
    probe.install()


def labels_of(cx, k):
    kind = cx.pick(['integers', 'integers', 'floats', 'texts', 'texts',
                    'booleans', 'small'])
    r = cx.rng
    if kind == 'booleans' and k == 2:
        v = np.array([False, True])
    elif kind == 'floats':
        v = r.choice(np.array([-1e15, -7., -3., -1., 0., 1., 2., 3., 10.,
                               1e6, 4e9, 1e15]), k, replace=False)
        v = v.astype(cx.pick([np.float64, np.float64, np.float32])) \
            if np.abs(v).max() < 1e7 else v
    elif kind == 'texts':
        v = np.array(list(r.choice(TEXTS, k, replace=False)))
    elif kind == 'small':
        t = cx.pick([np.int8, np.uint8, np.int16, np.uint16, np.int32,
                     np.uint32, np.uint64])
        lo = 0 if np.dtype(t).kind == 'u' else -100
        v = r.choice(np.arange(lo, 127), k, replace=False).astype(t)
    else:
        kind = 'integers'
        v = r.choice(np.concatenate([np.arange(-6, 12), [
            -2 ** 62, 2 ** 62, 2 ** 31, -2 ** 31 - 1, 1000]]), k,
            replace=False)
    cx.count('integers' if kind == 'small' else kind)
    return np.sort(v)


def same_type(a, b):
    """Same kind of label."""
    ka, kb = np.asarray(a).dtype.kind, np.asarray(b).dtype.kind
    if 'O' in (ka, kb):
        return all(isinstance(v, str) for v in np.asarray(a).tolist()) == \
            all(isinstance(v, str) for v in np.asarray(b).tolist())
    return ka == kb or {ka, kb} <= {'i', 'u'}


def compare(cx, est, T, want, labels, what):
    got = np.asarray(cx.call('predict', est.predict, T))
    cx.count('predictions', len(T))
    cx.check(got.shape == (len(T),), 'one label per row',
             '%s for %s rows' % (got.shape, len(T)))
    cx.check(same_type(got, labels), 'type of the predicted labels',
             '%s instead of %s' % (got.dtype, labels.dtype))
    cx.check(set(got.tolist()) <= set(labels.tolist()),
             'prediction is not a class', '%s' % set(got.tolist()))
    cx.check(got.tolist() == labels[want].tolist(),
             'label of the assigned class', '%s: %s instead of %s' % (
                 what, got.tolist(), labels[want].tolist()))


def case(cx):
    gen.seed_global(cx)
    tree = cx.flip(.5)
    if tree:
        if cx.flip(.03):
            P = gen.tree_problem(cx, depth=cx.pick([1, 2]), nmin=140,
                                 nmax=150, k=cx.pick([60, 140]),
                                 max_splits=4, trees=5)
            labels = np.sort(cx.rng.choice(np.arange(-100, 1000), P.k,
                                           replace=False))
            if cx.flip(.3):
                labels = np.sort(labels.astype(str))
            cx.count('many classes')
        else:
            tall = cx.flip(.03)
            P = gen.tree_problem(cx, depth=cx.pick([1, 2, 2]),
                                 nmin=150 if tall else 3,
                                 nmax=320 if tall else 16,
                                 max_splits=6, mmax=4,
                                 k=cx.pick([2, 3, 3, 4]))
            if tall and cx.flip(.6):
                sort_rows(P)
            labels = labels_of(cx, P.k)
        cx.count('trees')
        cx.count('three or more classes', P.k > 2)
        O = gen.build(P)
        est = gen.tree_estimator(P, O, max_iterations=cx.pick(
            [1, 2] if P.k > 4 else [-1, 2, 4]),
                                 **gen.tree_options(cx, old=len(P.y) < 100))
        T = np.vstack([P.X, gen.unseen(cx, P, 5)])
    else:
        P = gen.rule_problem(cx, mmax=5, nmax=16, tall=.03)
        if len(P.y) > 50 and cx.flip(.6):
            sort_rows(P)
        labels = labels_of(cx, 2)
        cx.count('rules')
        heur = cx.flip(.4)
        it = cx.pick([-1, -1, 1, 3])
        est = gen.rule_estimator(P, heur, max_iterations=it)
        m = P.X.shape[1]
        T = np.vstack([P.X, cx.rng.randint(0, 2, (8, m)),
                       np.zeros((1, m), int), np.ones((1, m), int)])
    what, y = label_container(cx, labels[P.y])
    if labels.dtype.kind == 'U' and cx.flip(.2):
        import pandas as pd
        what, y = 'category', pd.Series(pd.Categorical(labels[P.y]))
    probe.start(cap=300)
    cx.call('fit (%s %s)' % (what, labels.dtype), est.fit, P.X, y)
    probe.stop()
    cx.check(np.asarray(est.classes_).tolist() == labels.tolist() and
             same_type(est.classes_, labels), 'classes', '%s of labels %s' % (
                 est.classes_, labels))
    if tree:
        want = follow(P, est.master_problem.selected_paths, T)
        cx.check((want >= 0).all(), 'a row follows no selected path')
        hits = int((np.asarray(est.predict(P.X)) == labels[P.y]).sum())
        total = sum(p.cost for p in est.master_problem.selected_paths)
        cx.check(hits == total, 'correct rows and selected counts',
                 '%s %s (labels %s)' % (hits, total, labels), problem=P)
    else:
        want = oracle.dnf(T, est.master_problem.explanation).astype(int)
    compare(cx, est, T, want, labels, 'all rows')
    i = cx.int(0, len(T) - 1)
    compare(cx, est, T[i:i + 1], want[i:i + 1], labels, 'one row')
    only = np.flatnonzero(want == want[i])
    cx.count('one class batches')
    compare(cx, est, T[only], want[only], labels, 'rows of one class')
    if not tree:
        other = labels_of(cx, 2)
        est2 = gen.rule_estimator(P, heur, max_iterations=it)
        cx.call('fit', est2.fit, P.X, label_container(
            cx, other[P.y])[1])
        cx.count('renamings')
        a = np.asarray(est.predict(T)) == labels[1]
        b = np.asarray(est2.predict(T)) == other[1]
        cx.check(np.array_equal(a, b), 'renaming the labels changes the '
                 'predicted classes', '%s %s' % (labels, other), problem=P)
    if len(set(want.tolist())) > 1:
        cx.nontrivial((labels.tolist(), P.y.tolist(), want.tolist()))
    cx.sample(dict(tree=tree, labels=labels.tolist(), container=what,
                   rows=len(T)))
