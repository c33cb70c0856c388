"""C07: predictions of a trained rule against the formula it reports."""
import copy

import numpy as np

from rv import gen, oracle, probe, shapes

RULE = """Boolean rule classifiers trained on random and planted-rule 0/1 data;
every prediction of unseen rows (in shuffled, single-row, repeated and
differently stored batches) is compared with an independent evaluation of the
reported explanation. Non-trivial: the explanation has at least one non-empty
clause and both classes are predicted; distinct by (explanation, matrix)."""
ASSUMPTIONS = ["the learned explanation is master_problem.explanation"]
LIMITS = {'quick': dict(cases=4800, budget=100),
          'thorough': dict(cases=120000, budget=600)}
MINIMUM = {'rows predicted': 3000, 'multi-clause rules': 40,
           'containers': 300, 'wide matrices': 30, 'long clauses': 10}


def setup():
    probe.install()


def case(cx):
    P = gen.rule_problem(cx, mmax=6, nmax=18, wide=.12, longc=.15, multi=.25,
                         tall=.03)
    if P.style != 'multi' and cx.flip(.4):  # rules with several clauses
        P.C, P.p = cx.pick([6, 8, 10, 14]), cx.pick([5, 10])
    lab = cx.pick([(0, 1), (-3, 7), ('a', 'b'), (False, True), (2., 3.)])
    labels = np.array(lab)
    probe.start(cap=300)
    est = gen.rule_estimator(P, cx.flip(.4),
                             max_iterations=cx.pick([-1, -1, 1, 2, 4]))
    cx.call('fit', est.fit, P.X, labels[P.y])
    probe.stop()
    ex = [list(map(int, c)) for c in est.master_problem.explanation]
    if len(ex) > 1:
        cx.count('multi-clause rules')
    if len(ex) > 4:
        cx.count('rules of five or more clauses')
    m = P.X.shape[1]
    T = (cx.rng.rand(cx.int(1, 24), m) < cx.rng.uniform(.2, .95)).astype(int)
    if cx.flip(.3):
        T = np.vstack([T, P.X, np.zeros((1, m), int), np.ones((1, m), int)])
    if cx.flip(.04):        # many rows
        T = np.vstack([T] * (600 // len(T) + 1))
        T = T[cx.rng.permutation(len(T))]
    if cx.flip(.25):        # "nonzero value"
        T = T * cx.rng.choice([1, 2, -1, 5] + cx.pick(
            [[], [.5, .25], [256, 512], [1e-9], [65536]]), T.shape)
    want = labels[oracle.dnf(T, ex).astype(int)]
    before = copy.deepcopy(est.master_problem.explanation)

    def compare(M, want, what):
        got = cx.call('predict', est.predict, M)
        cx.count('rows predicted', len(want))
        got = np.asarray(got)
        cx.check(got.shape == (len(want),), 'shape of predictions',
                 '%s %s' % (what, got.shape))
        cx.check(got.tolist() == want.tolist(),
                 'prediction differs from the formula',
                 '%s: %s instead of %s' % (what, got.tolist(), want.tolist()),
                 explanation=ex, rows=T)
    if P.wide:
        cx.count('wide matrices')
    if max(map(len, ex), default=0) >= 5:
        cx.count('long clauses')
    compare(T, want, 'plain')
    order = cx.rng.permutation(len(T))
    compare(T[order], want[order], 'shuffled')
    for i in order[:3]:
        compare(T[i:i + 1], want[i:i + 1], 'single row')
    twice = np.concatenate([order, order])
    compare(T[twice], want[twice], 'repeated rows')
    for name, M in shapes.containers(
            cx, T, bool((T == T.round()).all() and T.max() < 100)):
        cx.count('containers')
        compare(M, want, name)
    compare(T, want, 'again')
    cx.check(before == est.master_problem.explanation,
             'prediction changed the model')
    if any(ex) and len(set(want.tolist())) == 2:
        cx.nontrivial((ex, T.tolist()))
    cx.sample(dict(explanation=ex, rows=len(T), positives=int(
        (want == labels[1]).sum())))
