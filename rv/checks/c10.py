"""C10: the clause heuristic against enumeration."""
import numpy as np

from rv import gen, oracle, probe
from rv.checks.c09 import changed_duals, random_duals

RULE = """Heuristic objects with K from 1 to 4 on random 0/1 data and dual
vectors (object reused for several vectors and for other data); the returned list is compared
with all clauses of 1..K features of negative reduced cost. Non-trivial: some
but not all clauses are returned; distinct by (data, K, duals)."""
ASSUMPTIONS = ["clauses within 1e-5 of zero reduced cost may go either way"]
LIMITS = {'quick': dict(cases=12000, budget=100),
          'thorough': dict(cases=300000, budget=600)}
MINIMUM = {'big problems': 10,
           'calls': 2000, 'clauses returned': 3000, 'K above 1': 500,
           'data changed': 500}


def setup():
    probe.install()


def case(cx):
    import col_gen_estimator as cg
    P = gen.rule_problem(cx, mmax=6, nmax=16, tall=.03, tmax=400, wide=.05, wmin=31, wmax=45,
                         longc=.1, big=.015)
    X = P.X.astype(cx.pick([np.int8, np.int64, float]))
    y, m = P.y, X.shape[1]
    K = P.C if P.big and P.wide else cx.pick([1, 2]) if P.wide else cx.pick([1, 1, 2, 3, 4, 6])
    if K > 1:
        cx.count('K above 1')
    h = cg.BDRHeuristic(K=K) if cx.flip(.5) else cg.BDRHeuristic(K)
    npos = int((y == 1).sum())
    for step in range(cx.int(1, 3)):
        if step and cx.flip(.3):
            # Other data of the same shape.
            cx.count('data changed')
            X = X[cx.rng.permutation(len(y))] if cx.flip(.5) else 1 - X
            y = cx.rng.permutation(y)
        new = random_duals(cx, P, npos)
        duals = changed_duals(cx, duals, new) \
            if step and cx.flip(.4) and len(duals[1]) == npos else new
        lam, mu = duals
        out = cx.call('generate_columns', h.generate_columns, X, y, duals)
        cx.count('calls')
        cl = [c for c in oracle.all_clauses(m, K) if c]
        rc = {c: oracle.reduced_cost(X, y, c, lam, mu) for c in cl}
        got = []
        for c in out:
            cx.check(isinstance(c, list) and
                     all(0 <= int(j) < m for j in c) and
                     all(a < b for a, b in zip(c, c[1:])) and
                     1 <= len(c) <= K, 'malformed clause', repr(c))
            got.append(tuple(int(j) for j in c))
        cx.count('clauses returned', len(got))
        cx.check(len(set(got)) == len(got), 'clause returned twice',
                 str(got))
        miss = [c for c in cl if rc[c] < -1e-5 and c not in set(got)]
        cx.check(not miss, 'improving clause missing',
                 '%s of %d, e.g. cost %.6g' % (
                     miss[:5], len(cl), rc[miss[0]] if miss else 0),
                 data=P, duals=duals, K=K)
        bad = [c for c in got if rc[c] > 1e-9]
        cx.check(not bad, 'clause does not improve',
                 '%s' % [(c, rc[c]) for c in bad[:5]], data=P, duals=duals)
        if 0 < len(got) < len(cl):
            cx.nontrivial((X.tolist(), y.tolist(), K, lam, mu))
        cx.sample(dict(X=X.shape, K=K, returned=got[:6]))
