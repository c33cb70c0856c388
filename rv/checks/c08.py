"""C08: duals of the rule master against an independent LP."""
import numpy as np

from rv import gen, oracle, probe

RULE = """Masters on random 0/1 data with random clause insertions (new, empty,
in any feature order) interleaved with solves; at every solve the duals are
checked for feasibility against every clause accepted so far and their dual
objective is compared with the LP optimum found by an independent solver.
Non-trivial: at least two clauses inserted before a solve whose optimum is
positive; distinct by (data, clause sequence)."""
ASSUMPTIONS = ["HiGHS solves the oracle LPs correctly", "tolerance 1e-5"]
LIMITS = {'quick': dict(cases=6000, budget=100),
          'thorough': dict(cases=150000, budget=600)}
MINIMUM = {'big problems': 10,
           'solves': 1500, 'clauses inserted': 2000, 'empty clauses': 100}
TOL = 1e-5


def setup():
    probe.install()


def certificate(cx, P, X, y, clauses, duals, what=''):
    lam, mu = duals
    mu = np.asarray(mu, float)
    pos = np.flatnonzero(y == 1)
    cx.check(len(mu) == len(pos), 'number of duals',
             '%d for %d positive rows' % (len(mu), len(pos)))
    cx.check(np.isfinite(lam) and np.isfinite(mu).all(), 'finite duals')
    cx.check(lam >= -1e-9 and (mu >= -1e-9).all(), 'sign of the duals',
             '%s %s' % (lam, mu.tolist()))
    cx.check((mu <= P.p + TOL).all(), 'dual constraint of a miss variable',
             'duals %s miss weight %s' % (mu.tolist(), P.p))
    for k in clauses:
        rc = oracle.reduced_cost(X, y, k, lam, mu)
        cx.check(rc >= -TOL * max(1, P.p), 'dual constraint of a clause',
                 'clause %s reduced cost %g' % (list(k), rc), data=P)
    opt = oracle.rule_lp(X, y, clauses, P.C, P.p)
    obj = float(mu.sum() - lam * P.C)
    cx.check(abs(obj - opt) <= TOL * max(1., abs(opt)),
             'dual objective differs from the optimum',
             '%.9g instead of %.9g (%d clauses)' % (obj, opt, len(clauses)),
             data=P, clauses=clauses)
    return opt


def random_clauses(cx, m, n=40):
    """Distinct random clauses over many features."""
    return list({tuple(sorted(cx.rng.choice(m, cx.int(1, 5), replace=False)
                              .tolist())) for _ in range(n)})


def case(cx):
    import col_gen_estimator as cg
    P = gen.rule_problem(cx, mmax=6, nmax=24, wide=.12, longc=.1, multi=.25,
                         tall=.03, tmax=400, big=.02)
    dt = cx.pick([np.int8, np.int64, float, np.float32])
    X, y = P.X.astype(dt), P.y
    if not (y == 1).any():
        y = 1 - y
    m = X.shape[1]
    master = cg.BDRMasterProblem(P.C, P.p, 'glop')
    cx.call('generate_mp', master.generate_mp, X, y)
    clauses = [()]
    rest = random_clauses(cx, m, 400 if P.big else 40) if P.wide else \
        [c for c in oracle.all_clauses(m, min(m, max(1, P.C))) if c]
    cx.rng.shuffle(rest)
    ins, last = 0, None
    for step in range(cx.int(2, 9)):
        act = cx.pick(['solve', 'add', 'add', 'add', 'empty', 'twice'])
        if act in ('solve', 'twice'):
            for _ in range(2 if act == 'twice' else 1):
                d = cx.call('solve_rmp', master.solve_rmp,
                            cx.pick(['', 'x']))
                cx.count('solves')
                last = certificate(cx, P, X, y, clauses, d)
        elif act == 'empty':
            cx.count('empty clauses')
            cx.check(cx.call('add_column', master.add_column, []) in
                     (False,), 'empty clause reported as added')
        else:
            for _ in range(300 if P.big and cx.flip(.3) else cx.int(1, 4)):
                if not rest:
                    break
                c = list(map(int, rest.pop()))
                if cx.flip(.3):
                    cx.rng.shuffle(c)
                res = cx.call('add_column', master.add_column, list(c))
                cx.check(bool(res), 'new clause not accepted', str(c))
                clauses.append(tuple(c))
                ins += 1
                cx.count('clauses inserted')
    d = cx.call('solve_rmp', master.solve_rmp)
    cx.count('solves')
    last = certificate(cx, P, X, y, clauses, d)
    if ins >= 2 and last > 1e-6:
        cx.nontrivial((X.tolist(), y.tolist(), P.C, P.p, clauses))
    cx.sample(dict(rows=X.shape, C=P.C, p=P.p, clauses=clauses, optimum=last))
