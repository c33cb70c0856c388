"""C28: injected solver failures."""
import numpy as np

from rv import gen, oracle, probe
from rv.checks import c12, c18, c20
from rv.checks.c14 import tree_of

RULE = """Trainings of rules and trees with failures injected at the solver
boundary: one master solve (or every first attempt) reports a failure with or
without having solved, the master LP fails from some solve on, the integer
master fails, CP-SAT pricing or cut generation is stopped after no or little
deterministic work (once, at random, always), MPSolver pricing reports no
solution. Completed trainings are judged by the master certificates, the best
selection/tree oracles and the optimality oracles; failed ones must leave the
model untrained. Non-trivial: the injected failure happened in a training with
generated columns or a raising one; distinct by (data, failure)."""
ASSUMPTIONS = ["a solver failure is a status other than OPTIMAL/FEASIBLE",
               "pricing without limit (MPSolver) may raise when it fails"]
LIMITS = {'quick': dict(cases=4100, budget=100),
          'thorough': dict(cases=102500, budget=600)}
MINIMUM = {'transient master failures': 300, 'persistent master failures': 70,
           'integer master failures': 60, 'stopped pricing solves': 300,
           'pricing never solved': 60, 'stopped cut generation': 10,
           'pricing solver failures': 20, 'completed trainings': 400,
           'untrained after failure': 150, 'certificates': 800}
BAD = (2, 3, 4, 5, 6)           # INFEASIBLE .. NOT_SOLVED


def setup():
    probe.install()


class Fault:
    def __init__(self, cx, mode):
        self.cx, self.mode = cx, mode
        self.n = 0                      # solves of the phase concerned
        self.hit = 0
        self.status = cx.pick(BAD)
        self.k = cx.pick([1, 1, 2, 2, 3, 4, 6, 9, 12])
        self.solve = cx.flip(.5)
        self.inside = False
        self.p = cx.pick([.2, .5, .9, 1.])
        self.work = cx.pick([0., 0., 1e-5, 1e-4, 1e-3])

    def refuse(self, *a, **k):
        self.hit += 1
        return False

    def __call__(self, kind, phase, solver):
        m = self.mode
        if self.inside:
            return None
        if kind == 'mp' and phase == 'solve_rmp':
            if m in ('once', 'each', 'persistent'):
                self.n += 1
                if (m == 'once' and self.n == self.k) or \
                        (m == 'each' and self.n % 2) or \
                        (m == 'persistent' and self.n >= self.k):
                    self.hit += 1
                    if self.solve:
                        self.inside = True
                        solver.Solve()
                        self.inside = False
                    return self.status
        elif kind == 'mp' and phase == 'solve_ip' and m == 'ip':
            self.hit += 1
            if self.solve:
                self.inside = True
                solver.Solve()
                self.inside = False
            return self.status
        elif kind == 'mp' and phase == 'generate' and m == 'pricing mp':
            self.n += 1
            if self.n == self.k:
                self.hit += 1
                return self.status
        elif kind == 'cp' and phase == 'generate' and m == 'pricing':
            self.n += 1
            if self.cx.rng.rand() < self.p:
                self.hit += 1
                return self.work
        elif kind == 'cp' and phase == 'solve_rmp' and m == 'cuts':
            self.hit += 1
            return self.work
        return None


def case(cx):
    gen.seed_global(cx)
    if cx.flip(.35):
        rule(cx)
    else:
        tree(cx)


def attempt(cx, est, P, fault):
    """Trains under the fault; returns (recorder, exception or None)."""
    err = None
    rec = probe.start(cap=300, fault=fault)
    refuse = fault.mode == 'ip' and cx.flip(.3)
    cls = type(est.master_problem)
    own = cls.__dict__.get('solve_ip')
    if refuse and own is not None:
        # The documented way to tell that the problem is not solved.
        cls.solve_ip = fault.refuse
        cx.count('refused integer solves')
    try:
        est.fit(P.X, P.y)
    except probe.Runaway as e:
        cx.check(False, 'nontermination under a solver failure', str(e),
                 mode=fault.mode)
    except Exception as e:
        err = e
    finally:
        if refuse and own is not None:
            cls.solve_ip = own
    probe.stop()
    cx.count({'once': 'transient master failures',
              'each': 'transient master failures',
              'persistent': 'persistent master failures',
              'ip': 'integer master failures',
              'pricing': 'stopped pricing solves',
              'pricing mp': 'pricing solver failures',
              'cuts': 'stopped cut generation'}[fault.mode],
             fault.hit if fault.mode in ('once', 'each', 'pricing', 'cuts',
                                         ) else min(1, fault.hit))
    return rec, err


def outcome(cx, est, P, fault, err):
    """True when the training completed; judges failing ones."""
    from sklearn.exceptions import NotFittedError
    m = fault.mode
    what = '%s failure no %d status %s' % (m, fault.k, fault.status)
    if not fault.hit:
        cx.check(err is None, 'training failed without a failure', repr(err))
    elif m in ('persistent', 'ip'):
        cx.check(err is not None, 'training completed although the %s failed'
                 % ('integer master' if m == 'ip' else 'master LP'), what,
                 problem=P)
    elif m != 'pricing mp':
        cx.check(err is None, 'training failed after a %s failure' % m,
                 '%s: %r' % (what, err), problem=P)
    if err is None:
        cx.count('completed trainings')
        return True
    cx.count('untrained after failure')
    cx.raises(NotFittedError, 'model trained by a failing training',
              est.predict, P.X)
    cx.nontrivial((repr(P), m, fault.k, fault.status))
    return False


def rule(cx):
    P = gen.rule_problem(cx, mmax=6, nmax=20)
    heur = cx.flip(.4)
    it = cx.pick([-1, -1, -1, 1, 3])
    fault = Fault(cx, cx.pick(['once', 'once', 'each', 'persistent', 'ip',
                               'pricing mp']))
    est = gen.rule_estimator(P, heur, max_iterations=it)
    rec, err = attempt(cx, est, P, fault)
    if not outcome(cx, est, P, fault, err):
        return
    adds = [tuple(e['args'][0]) for e in rec.of('add_column') if e['ret']]
    c12.judge(cx, P, est.master_problem, [()] + adds)
    lam, mu = rec.of('solve_rmp')[-1]['ret']
    value = float(np.sum(mu) - lam * P.C)
    own = oracle.rule_lp(P.X, P.y, [()] + adds, P.C, P.p)
    full = oracle.rule_lp(P.X, P.y, list(oracle.all_clauses(
        P.X.shape[1], P.C)), P.C, P.p)
    tol = 2e-4 * (1 + abs(full)) + 1e-4
    cx.check(len(mu) == int(P.y.sum()), 'number of duals')
    if est.mp_optimal_:
        cx.check(abs(value - own) <= tol, 'value of the last master solve',
                 '%.9g instead of %.9g' % (value, own), problem=P)
        cx.check(abs(value - full) <= tol, 'falsely optimal rule model',
                 '%.9g instead of %.9g after %s failure' % (
                     value, full, fault.mode), problem=P)
    else:
        cx.check(value >= full - tol, 'value below the full LP')
        cx.check(it > 0, 'unlimited run does not report optimality')
    cx.check(np.array_equal(est.predict(P.X), oracle.dnf(
        P.X, est.master_problem.explanation).astype(int)),
        'prediction after a %s failure' % fault.mode)
    if fault.hit and adds:
        cx.nontrivial((repr(P), fault.mode, fault.k, fault.status))
    cx.sample(dict(rows=P.X.shape, failure=fault.mode, no=fault.k,
                   columns=len(adds)))


def tree(cx):
    mode = cx.pick(['once', 'once', 'each', 'persistent', 'ip', 'pricing',
                    'pricing', 'pricing mp', 'cuts'])
    many = mode == 'cuts' or cx.flip(.4)
    P = gen.tree_problem(cx, depth=cx.pick([2, 2, 3]) if many else None,
                         nmax=14 if many else 20, many=many,
                         max_splits=9 if many else 8)
    O = gen.build(P)
    opt = gen.tree_options(cx)
    opt['use_old_sp'] = mode == 'pricing mp' or (
        mode != 'pricing' and cx.flip(.15))
    if many:
        opt.update(num_master_cuts_round=cx.int(1, 4),
                   master_generate_cuts=True)
    if mode == 'cuts':
        opt['master_beta_constraints_as_cuts'] = cx.flip(.2)
    opt['max_iterations'] = cx.pick([-1, -1, -1, 1, 3, 12])
    fault = Fault(cx, mode)
    est = gen.tree_estimator(P, O, **opt)
    first = list(O.paths)
    rec, err = attempt(cx, est, P, fault)
    if not outcome(cx, est, P, fault, err):
        return
    tree_of(cx, P, est.master_problem.selected_paths)
    hits, start, top, n = c20.judge(cx, P, est, rec, first)
    if mode == 'pricing' and fault.hit and fault.hit == fault.n:
        cx.count('pricing never solved')
    paths, cuts, d = list(first), [], None
    for e in rec.ev:
        if e['kind'] == 'add_column' and e['ret']:
            paths.append(e['args'][0])
            oracle.check_path(cx, P, paths[-1], 'generated path')
            cx.check(oracle.true_count(P, paths[-1]) == paths[-1].cost,
                     'count of a generated path', problem=P)
        elif e['kind'] == 'solve_rmp':
            d = e['ret']
            cuts = cuts + [list(map(bool, c)) for c in d[4]]
            c18.certify(cx, P, paths, d, cuts,
                        opt['master_beta_constraints_as_cuts'], cx.flip(.3))
    if fault.hit and n > len(first):
        cx.nontrivial((P.size(), mode, fault.k, fault.status, hits, n))
    cx.sample(dict(size=P.size(), options=opt, failure=mode, no=fault.k,
                   correct=hits, initial=start, paths=n))
