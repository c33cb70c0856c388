"""C26: what every tuned solve of a CP-SAT model does, and how it is scored."""
import numpy as np
from ortools.sat.python import cp_model

from rv import find, gen, probe

RULE = """Sequences of tuned solves on several pricing objects with a stub
solver that records what it is asked (parameters, limit, model, callback) and
answers with random status, time, value and bound, and the tuned solves of
real decision tree trainings with the real solver observed; recorded times,
gaps and credited scores are compared with the scoring rule. Non-trivial: a
sequence with a feasible but unproven solve; distinct by the answers."""
ASSUMPTIONS = ["value and bound are not both zero for unproven solves"]
LIMITS = {'quick': dict(cases=6000, budget=100),
          'thorough': dict(cases=150000, budget=600)}
MINIMUM = {'tuned solves': 10000, 'feasible': 2000, 'optimal': 2000,
           'nothing found': 2000, 'different signs': 500,
           'real solves': 500, 'scores credited': 20000}


def setup():
    probe.install()


class Bag:
    """Solver parameters: remembers every value set."""


def make_spy(log):
    from col_gen_estimator import Parameter

    class Spy(Parameter):
        suggested = None

        def get_best_value(self):
            v = super().get_best_value()
            self.suggested = v
            return v

        def adjust_score(self, score, index=None):
            used = self.suggested if index is None else self.values_[index]
            log.append((self, score, used))
            return super().adjust_score(score, index)
    return Spy


def instrument(sp):
    log = []
    Spy = make_spy(log)
    for p in sp.tunable_params_.values():
        p.__class__ = Spy
    return log


class Stub(cp_model.CpSolver):
    def __init__(self, cx):
        super().__init__()
        self.cx = cx
        self.parameters = Bag()
        self.calls = []

    def plan(self):
        from ortools.sat.python import cp_model as cm
        cx = self.cx
        self.status = cx.pick([cm.OPTIMAL, cm.FEASIBLE, cm.FEASIBLE,
                               cm.UNKNOWN, cm.INFEASIBLE, cm.MODEL_INVALID])
        self.wall = float(cx.rng.rand() * cx.pick([.01, 1, 40]))
        self.obj = float(np.round(cx.rng.randn() * 10, 2))
        self.bound = self.obj + float(abs(np.round(
            cx.rng.randn() * cx.pick([.1, 5, 50]), 2)))
        if cx.flip(.1):
            self.obj = 0.
        if cx.flip(.3):
            self.obj, self.bound = -self.obj, -self.bound
        if cx.flip(.05):
            self.bound = 0.
        if self.obj == self.bound == 0:
            self.bound = 1.
        self.n = 0

    def Solve(self, model, *a, **k):
        cb = a[0] if a else k.get('solution_callback', k.get('callback'))
        self.calls.append((model, cb, dict(vars(self.parameters))))
        return self.status

    def WallTime(self):
        return self.wall

    def ObjectiveValue(self):
        return self.obj

    def BestObjectiveBound(self):
        return self.bound

    def StatusName(self, *a):
        return str(self.status)

    def ResponseStats(self):
        return ''

    def SolveWithSolutionCallback(self, model, cb):
        return self.Solve(model, cb)

    solve = Solve
    wall_time = property(WallTime)
    objective_value = property(ObjectiveValue)
    best_objective_bound = property(BestObjectiveBound)


def expected(status, wall, obj, bound, limit):
    from ortools.sat.python import cp_model as cm
    t, g = 1., 1.
    if status == cm.OPTIMAL:
        t, g = wall / limit, 0.
    elif status == cm.FEASIBLE and obj * bound >= 0:
        g = abs(obj - bound) / max(abs(obj), abs(bound))
    return g, -(t + g)


def near(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def judge(cx, sp, before, log, params, call, limit, status, wall, obj, bound,
          model, cb):
    from ortools.sat.python import cp_model as cm
    cx.count('tuned solves')
    cx.count({cm.OPTIMAL: 'optimal', cm.FEASIBLE: 'feasible'}.get(
        status, 'nothing found'))
    cx.count('different signs', status == cm.FEASIBLE and obj * bound < 0)
    cx.check(call[0] is model, 'another model was solved')
    if cb is not False:
        cx.check(call[1] is cb, 'callback of the solve', '%s' % (call[1],))
    cx.check(call[2].get('max_time_in_seconds') == limit,
             'time limit of the solve', '%s instead of %s' % (
                 call[2].get('max_time_in_seconds'), limit))
    for name, p in params.items():
        cx.check(call[2].get(name) == p.suggested and
                 p.suggested is not None, 'suggested value not applied',
                 '%s is %s instead of %s' % (
                     name, call[2].get(name), p.suggested))
    g, score = expected(status, wall, obj, bound, limit)
    cx.check(len(sp.solve_times_) == before + 1 and
             len(sp.gaps_) == before + 1, 'number of recorded solves',
             '%d times %d gaps after %d solves' % (
                 len(sp.solve_times_), len(sp.gaps_), before + 1))
    cx.check(near(sp.solve_times_[-1], wall), 'recorded time',
             '%s instead of %s' % (sp.solve_times_[-1], wall))
    cx.check(near(sp.gaps_[-1], g), 'recorded gap',
             '%s instead of %s (status %s value %s bound %s)' % (
                 sp.gaps_[-1], g, status, obj, bound))
    cx.check(len(log) == len(params), 'number of credited scores',
             '%d for %d parameters' % (len(log), len(params)))
    for name, p in params.items():
        mine = [e for e in log if e[0] is p]
        cx.check(len(mine) == 1, 'scores credited to a parameter',
                 '%s: %d' % (name, len(mine)))
        cx.count('scores credited')
        cx.check(mine[0][2] == call[2][name], 'value a score is credited to',
                 '%s: %s instead of %s' % (name, mine[0][2], call[2][name]))
        cx.check(near(mine[0][1], score), 'credited score',
                 '%s instead of %s (status %s time %s of %s value %s bound '
                 '%s)' % (mine[0][1], score, status, wall, limit, obj, bound))


def case(cx):
    from ortools.sat.python import cp_model as cm
    gen.seed_global(cx)
    if cx.flip(.2):
        return real(cx)
    import col_gen_estimator as cg
    objs = []
    for _ in range(cx.int(1, 3)):
        sp = cg.BaseSubproblem()
        find.set_cp(sp, Stub(cx))
        log = instrument(sp)
        if cx.flip(.5):
            for p in sp.tunable_params_.values():
                p.set_explore_count(cx.int(0, 4))
        objs.append((sp, log))
    answers, counts = [], {}
    for _ in range(cx.int(40, 150) if cx.flip(.06) else cx.int(3, 25)):
        sp, log = cx.pick(objs)
        st = find.cp(sp)
        st.plan()
        model, cb = cm.CpModel(), cx.pick([None, object()])
        limit = cx.pick([30, 1, 5, 100, .5, .01, 601, 3600, 86400, 1e7])
        before = len(sp.gaps_)
        del log[:], st.calls[:]
        args = dict(time_limit=limit, callback=cb)
        if limit == 30 and cx.flip(.5):
            del args['time_limit']
        if cb is None and cx.flip(.5):
            del args['callback']
        cx.call('solve_model', sp.solve_model, model, **args)
        cx.check(len(st.calls) == 1, 'number of solves', '%d' % len(st.calls))
        judge(cx, sp, before, log, sp.tunable_params_, st.calls[0], limit,
              st.status, st.wall, st.obj, st.bound, model, cb)
        answers.append((st.status, st.obj, st.bound))
        counts[id(sp)] = counts.get(id(sp), 0) + 1
    for sp, _ in objs:
        # Solves of one object are not recorded at another one.
        cx.check(len(sp.gaps_) == counts.get(id(sp), 0),
                 'solves of another object recorded')
    if any(a[0] == cm.FEASIBLE for a in answers):
        cx.nontrivial(answers)
    cx.sample(answers[:4])


def real(cx):
    """Tuned solves of a training with the real solver."""
    import col_gen_estimator as cg
    from ortools.sat.python import cp_model as cm
    P = gen.tree_problem(cx, nmax=14, depth=cx.pick([1, 2]))
    O = gen.build(P)
    est = gen.tree_estimator(P, O, use_old_sp=False, max_iterations=3)
    probe.start()
    calls = []

    class Observed(cm.CpSolver):
        def Solve(self, model, *a, **k):
            cb = a[0] if a else k.get('solution_callback')
            names = ('max_time_in_seconds', 'min_num_lns_workers',
                     'cp_model_probing_level', 'max_presolve_iterations')
            calls.append((model, cb, {
                n: getattr(self.parameters, n) for n in names}))
            calls[-1] += (super().Solve(model, *a, **k),)
            return calls[-1][3]

    logs = {}
    cls = cg.BaseSubproblem
    orig = cls.solve_model

    def solve_model(sp, model, time_limit=30, callback=None):
        if id(sp) not in logs:
            find.set_cp(sp, Observed())
            logs[id(sp)] = (sp, instrument(sp))
        log = logs[id(sp)][1]
        before = len(sp.gaps_)
        del log[:], calls[:]
        res = orig(sp, model, time_limit, callback)
        cx.check(len(calls) == 1, 'number of solves', '%d' % len(calls))
        s = find.cp(sp)
        found = calls[0][3] in (cm.OPTIMAL, cm.FEASIBLE)
        judge(cx, sp, before, log, sp.tunable_params_, calls[0],
              time_limit, calls[0][3], s.WallTime(),
              s.ObjectiveValue() if found else 0.,
              s.BestObjectiveBound() if found else 0., model, callback)
        cx.count('real solves')
        return res
    cls.solve_model = solve_model
    try:
        cx.call('fit', est.fit, P.X, P.y)
    finally:
        cls.solve_model = orig
    probe.stop()
