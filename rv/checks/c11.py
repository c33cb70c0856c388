"""C11: reported optimality of rule training against the complete LP."""
import numpy as np

from rv import gen, oracle, probe

RULE = """Complete trainings of both Boolean rule classifiers with and without
iteration limits; the value certified by the duals of the last master solve is
compared with the LP optimum over all clauses (enumerated) of at most C
features. Non-trivial: columns were generated; distinct by data and
parameters."""
ASSUMPTIONS = ["CBC stops within a relative gap of 1e-4",
               "every clause of at most C features is allowed"]
LIMITS = {'quick': dict(cases=4800, budget=100),
          'thorough': dict(cases=120000, budget=600)}
MINIMUM = {'big problems': 10,
           'optimal runs': 200, 'limited runs': 60, 'columns': 500}

# Small weights give small reduced costs.
PS = (1, 2, .5, 10, 3.7, 1.25, .3, .1, .03, .01, .004)


def setup():
    probe.install()


def case(cx):
    P = gen.rule_problem(cx, mmax=6, nmax=24, tall=.03, ps=PS, wide=.04, wmin=31,
                         wmax=38, longc=.15, big=.02)
    if P.wide and not P.big:
        P.C = cx.int(1, 2)
    heur = cx.flip(.5)
    it = cx.pick([-1, -1, -1, 1, 2, 3, 6])
    est = gen.rule_estimator(P, heur, max_iterations=it)
    rec = probe.start(cap=300)
    cx.call('fit', est.fit, P.X, P.y)
    probe.stop()
    m = P.X.shape[1]
    solves = rec.of('solve_rmp')
    cx.check(bool(solves), 'master never solved')
    lam, mu = solves[-1]['ret']
    value = float(np.sum(mu) - lam * P.C)
    full = oracle.rule_lp(P.X, P.y, list(oracle.all_clauses(m, P.C)), P.C,
                          P.p)
    adds = len(rec.of('add_column'))
    cx.count('columns', adds)
    # Clauses with a reduced cost above -1e-6 may be missing.
    tol = 1e-5 * (1 + P.C + abs(full))
    cx.check(value >= full - tol, 'value below the optimum of the full LP',
             '%.9g < %.9g' % (value, full), data=P)
    cx.check(len(solves) == est.iter_ or est.iter_ is None,
             'iterations', '%s %s' % (len(solves), est.iter_))
    if it < 0:
        cx.check(est.mp_optimal_, 'unlimited run does not report optimality')
    else:
        cx.count('limited runs')
        cx.check(len(solves) <= it, 'iteration limit exceeded')
    if est.mp_optimal_:
        cx.count('optimal runs')
        cx.check(value <= full + tol, 'reported optimal but the LP is not',
                 '%.9g > %.9g' % (value, full), data=P)
    if adds:
        cx.nontrivial((P.X.tolist(), P.y.tolist(), P.C, P.p, it, heur))
    cx.sample(dict(rows=P.X.shape, C=P.C, p=P.p, limit=it, columns=adds,
                   value=value, optimum=full))
