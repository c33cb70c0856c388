"""C09: exact clause pricing against enumeration of all clauses."""
import numpy as np

from rv import gen, oracle, probe

RULE = """One pricing object per case, asked with a sequence of dual vectors
(random, sparse, scaled, and taken from a real master); every answer is
compared with the minimum reduced cost over all clauses of at most D features
by enumeration. Non-trivial: a clause was returned; distinct by (data, duals).
"""
ASSUMPTIONS = ["CBC stops within a relative gap of 1e-4"]
LIMITS = {'quick': dict(cases=4800, budget=100),
          'thorough': dict(cases=120000, budget=600)}
MINIMUM = {'big problems': 5,
           'clauses returned': 500, 'proved optimal': 150,
           'size limit binding': 20}


def setup():
    probe.install()


def random_duals(cx, P, npos):
    kind = cx.pick(['uniform', 'sparse', 'zero', 'scaled', 'small', 'integer',
                    'threshold'])
    lam = float(cx.rng.choice([0, 0, .1, .5, 1, 2, 5]) * cx.rng.rand())
    mu = cx.rng.rand(npos) * P.p
    if kind == 'sparse':
        mu *= cx.rng.rand(npos) < .4
    elif kind == 'zero':
        mu[:] = 0
    elif kind == 'scaled':
        mu *= cx.pick([10, 10, 500])
    elif kind == 'small':
        mu *= .05
    elif kind == 'integer':
        lam = float(cx.int(0, 2))
        mu = cx.rng.randint(0, 4, npos).astype(float)
    elif kind == 'threshold':
        lam = float(cx.rng.rand() * .3)
        mu = cx.rng.rand(npos) * .6
    return lam, [float(v) for v in mu]


def changed_duals(cx, old, new):
    """The duals old with a part replaced by that of new."""
    what = cx.pick(['lam', 'mu', 'one', 'none'])
    lam, mu = (new[0], old[1]) if what == 'lam' else (old[0], new[1]) \
        if what == 'mu' else old
    mu = list(mu)
    if what == 'one' and mu:
        i = cx.int(0, len(mu) - 1)
        mu[i] = cx.pick([0., new[1][i]])
    cx.count('partly changed duals')
    return lam, mu


def case(cx):
    import col_gen_estimator as cg
    P = gen.rule_problem(cx, mmax=7, nmax=18, tall=.03, wide=.06, wmin=32, wmax=40,
                         longc=.2, big=.015)
    X = P.X.astype(cx.pick([np.int8, np.int64, float]))
    y = P.y
    m = X.shape[1]
    D = P.C if P.big and P.wide else cx.pick([1, 2, 2, 2]) if P.wide else cx.pick([1, 2, 3, 4, m, m + 2])
    npos = int((y == 1).sum())
    sp = cg.BDRSubProblem(D, 'cbc')
    clauses = list(oracle.all_clauses(m, D))
    wide = clauses if P.wide else list(oracle.all_clauses(m, m))
    master = None
    if cx.flip(.4):
        master = cg.BDRMasterProblem(P.C, P.p, 'glop')
        cx.call('generate_mp', master.generate_mp, X, y)
        known = {()}
    for step in range(cx.int(2, 6)):
        if master is not None:
            duals = cx.call('solve_rmp', master.solve_rmp)
        else:
            new = random_duals(cx, P, npos)
            duals = changed_duals(cx, duals, new) \
                if step and cx.flip(.4) else new
        lam, mu = duals
        if cx.flip(.5):
            cx.call('update_subproblem', sp.update_subproblem, X, y, duals)
        out = cx.call('generate_columns', sp.generate_columns, X, y, duals,
                      '')
        rc = {c: oracle.reduced_cost(X, y, c, lam, mu) for c in clauses}
        best = min(rc.values())
        tol = 1e-5 + 3e-4 * max(1., abs(best))
        if master is not None:
            tol = 1e-5 + 3e-4 * abs(best)
        out = [tuple(sorted(int(j) for j in c)) for c in out]
        cx.count('calls')
        if best < 1e-9 and min(oracle.reduced_cost(X, y, c, lam, mu)
                               for c in wide) < best - 1e-3:
            cx.count('size limit binding')
        if not out:
            cx.count('proved optimal')
            cx.check(best >= -tol, 'no clause although one improves',
                     'minimum %.9g call %d' % (best, step), data=P,
                     duals=duals, D=D)
            if master is not None:
                break
            continue
        cx.count('clauses returned', len(out))
        for c in out:
            cx.check(len(set(c)) == len(c) and len(c) <= D and
                     all(0 <= j < m for j in c), 'malformed clause',
                     '%s D=%d' % (c, D))
            cx.check(rc[c] < 1e-7, 'clause does not improve',
                     '%s %.9g' % (c, rc[c]))
        got = min(rc[c] for c in out)
        cx.check(got <= best + tol, 'not a best clause',
                 '%s has %.9g, minimum is %.9g, call %d' % (
                     out, got, best, step), data=P, duals=duals, D=D)
        cx.nontrivial((X.tolist(), y.tolist(), lam, mu))
        cx.sample(dict(X=X.shape, D=D, clause=out, cost=got, minimum=best))
        if master is not None:
            if set(out) & known:
                break
            for c in out:
                known.add(c)
                cx.call('add_column', master.add_column, list(c))
