"""C12: the explanation against the best selection of the clauses found."""
import numpy as np

from rv import gen, oracle, probe
from rv.checks.c08 import random_clauses

RULE = """Trainings of both Boolean rule classifiers and direct integer solves
of masters with random clause sets; the explanation is checked for membership,
distinctness and budget, and its cost is compared with the minimum over all
selections (independent integer program). Non-trivial: the optimal selection
has at least one clause and at least three clauses were available; distinct by
(data, clauses)."""
ASSUMPTIONS = ["HiGHS solves the oracle integer programs correctly",
               "tolerance 0.01 + 2e-4 relative (objective scaling of CP-SAT)"]
LIMITS = {'quick': dict(cases=5400, budget=100),
          'thorough': dict(cases=135000, budget=600)}
MINIMUM = {'big problems': 10,
           'trained rules': 150, 'direct integer solves': 150,
           'budget binding': 30}


def setup():
    probe.install()


def judge(cx, P, master, allowed):
    ex = [tuple(sorted(map(int, c))) for c in master.explanation]
    ok = {tuple(sorted(c)) for c in allowed}
    cx.check(len(set(ex)) == len(ex), 'clause selected twice', str(ex))
    cx.check(set(ex) <= ok, 'clause not in the master', '%s not in %s' % (
        ex, sorted(ok)))
    total = sum(1 + len(c) for c in ex)
    cx.check(total <= P.C, 'complexity budget exceeded',
             '%s has %d > %d' % (ex, total, P.C))
    cost = oracle.rule_cost(P.X, P.y, ex, P.p)
    best, arg = oracle.rule_ip(P.X, P.y, sorted(ok), P.C, P.p)
    cx.check(cost <= best + .01 + 2e-4 * abs(best),
             'a better selection exists',
             '%s costs %.6g, %s costs %.6g' % (ex, cost, arg, best), data=P,
             clauses=sorted(ok))
    if oracle.rule_lp(P.X, P.y, sorted(ok), 10 ** 6, P.p) < best - .5:
        cx.count('budget binding')
    if ex and len(ok) >= 3:
        cx.nontrivial((P.X.tolist(), P.y.tolist(), P.C, P.p, sorted(ok)))
    cx.sample(dict(rows=P.X.shape, C=P.C, p=P.p, available=len(ok),
                   explanation=ex, cost=cost))


def case(cx):
    import col_gen_estimator as cg
    P = gen.rule_problem(cx, mmax=6, nmax=24, wide=.1, longc=.15, multi=.25,
                         tall=.03, big=.02)
    if cx.flip(.5):
        cx.count('trained rules')
        est = gen.rule_estimator(
            P, cx.flip(.5), max_iterations=cx.pick(
                [1, 2, 3] if P.wide else [-1, -1, 1, 2, 4]))
        rec = probe.start(cap=300)
        cx.call('fit', est.fit, P.X, P.y)
        probe.stop()
        allowed = [()] + [tuple(e['args'][0]) for e in rec.of('add_column')
                          if e['ret']]
        judge(cx, P, est.master_problem, allowed)
        return
    cx.count('direct integer solves')
    master = cg.BDRMasterProblem(P.C, P.p, 'glop')
    cx.call('generate_mp', master.generate_mp, P.X, P.y)
    m = P.X.shape[1]
    rest = random_clauses(cx, m, 400 if P.big else 40) if P.wide else \
        [c for c in oracle.all_clauses(m, cx.pick([4, 4, 9])) if c]
    cx.rng.shuffle(rest)
    allowed = [()]
    for c in rest[:300 if P.big and cx.flip(.5) else cx.int(0, 20)]:
        if cx.flip(.2):
            cx.call('solve_rmp', master.solve_rmp)
        c = tuple(map(int, c))
        cx.call('add_column', master.add_column, list(c))
        allowed.append(c)
    if cx.flip(.7):
        cx.call('solve_rmp', master.solve_rmp)
    for _ in range(cx.int(1, 2)):
        cx.check(bool(cx.call('solve_ip', master.solve_ip)),
                 'integer master not solved')
        judge(cx, P, master, allowed)
