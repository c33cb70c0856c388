"""C25: the parameter tuner as an online trace specification."""
import random

import numpy as np



RULE = """Random traces of suggestions and scores (credited to the last or to
an explicit value, several scores per suggestion or none, changed exploration
counts, values added late) on tuned parameters with 1-6 values, checked online
against a model of the policy; a twin with the same seed runs in another
random environment. Non-trivial: the trace got past the first scoring phase;
distinct by trace."""
ASSUMPTIONS = ["scores within 1e-9 of the threshold are not judged"]
LIMITS = {'quick': dict(cases=5000, budget=100),
          'thorough': dict(cases=125000, budget=600)}
MINIMUM = {'suggestions': 100000, 'explored pairs': 5000,
           'explored at random': 10000, 'scored rarely': 10000,
           'converged': 20000, 'convergence excludes values': 10000,
           'kept by the deviation': 500, 'explicit scores': 5000,
           'twin suggestions': 50000, 'long explorations': 100}


class Model:
    def __init__(self, c):
        self.c, self.values, self.s = c, [], []
        self.left, self.flag, self.last = 10, 1, None

    def add(self, v):
        self.values.append(v)
        self.s.append([])

    def allowed(self):
        """(indices that may be suggested, indices not judged, phase)."""
        n = len(self.values)
        if self.left > 0:
            if n == 2:
                return [int(bool(self.left & self.flag))], [], 'pair'
            return list(range(n)), [], 'random'
        few = [i for i in range(n) if len(self.s[i]) < 4]
        if few:
            return few, [], 'few'
        sc = [np.mean(s) + self.c / len(s) for s in self.s]
        up = [a + np.std(s, ddof=1) / 10 for a, s in zip(sc, self.s)]
        tol = 1e-9 * (1 + max(abs(v) for v in up))
        ok = [i for i in range(n) if up[i] >= max(sc) + tol]
        vague = [i for i in range(n) if abs(up[i] - max(sc)) < tol]
        self.dev = [i for i in ok if sc[i] < max(sc) - tol]
        return ok, vague, 'best'


def case(cx):
    from col_gen_estimator import Parameter
    seed = cx.int(0, 10 ** 6)
    c = cx.pick([0.3, 0.3, 0., 1., 5.])
    P, Q, M = Parameter(c, 'p', seed), Parameter(c, 'q', seed), Model(c)
    n = cx.pick([1, 2, 2, 2, 3, 3, 4, 6, cx.int(7, 14)])
    vals = [cx.pick([v, 1000 * (v + 1), 'v%d' % v, v + .5])
            for v in range(n)]
    late = n > 1 and cx.flip(.15)
    explore = n > 2 and not late and cx.flip(.2)
    for v in vals[:n - 1 if late else n]:
        for o in (P, Q, M):
            (o.add if o is M else o.add_value)(v)
    if cx.flip(.5):
        M.flag = cx.pick([1, 2, 4, 8, 3, 1 << cx.int(4, 9)])
        P.set_switch_flag(M.flag), Q.set_switch_flag(M.flag)
    if cx.flip(.6):
        M.left = cx.pick([0, 0, 1, 2, 5, 16, 30, 150])
        P.set_explore_count(M.left), Q.set_explore_count(M.left)
    if n == 2 and M.flag > 8 and cx.flip(.7):
        M.left = cx.int(M.flag, 2 * M.flag + 20)
        P.set_explore_count(M.left), Q.set_explore_count(M.left)
    if explore:
        M.left = 150
        P.set_explore_count(M.left), Q.set_explore_count(M.left)
    means = cx.rng.randn(n) * cx.pick([0, .01, .3, 2]) - 1
    sd = cx.pick([0., .01, .3, 3.])
    skip, extra = cx.pick([0, .1, .5]), cx.pick([0, .1, .4])
    shadow = random.Random(cx.int(0, 10 ** 6))
    phases, seen, explored, trace = set(), set(), 0, []
    for step in range(160 if explore else cx.pick(
            [20, 60, 160] * 8 + [700])):
        if late and step == 12:
            P.add_value(vals[-1]), Q.add_value(vals[-1]), M.add(vals[-1])
        if not explore and cx.flip(.02):
            M.left = cx.int(0, 12)
            P.set_explore_count(M.left), Q.set_explore_count(M.left)
        ok, vague, phase = M.allowed()
        v = cx.call('get_best_value', P.get_best_value)
        cx.count('suggestions')
        cx.check(v in M.values, 'suggestion is not one of the values',
                 '%r of %s' % (v, M.values))
        i = M.values.index(v)
        cx.check(i in ok or i in vague, 'suggestion in phase ' + phase,
                 'value %d, allowed %s (left %d flag %d scores %s)' % (
                     i, ok, M.left, M.flag, M.s), bonus=c)
        if phase == 'pair':
            cx.count('explored pairs')
        elif phase == 'random':
            cx.count('explored at random')
            seen.add(i)
            explored += 1
        elif phase == 'few':
            cx.count('scored rarely')
        else:
            cx.count('converged')
            cx.count('convergence excludes values', len(ok) < len(M.values))
            cx.count('kept by the deviation', len(M.dev) > 0)
        phases.add(phase)
        if M.left > 0:
            M.left -= 1
        M.last = i
        trace.append(i)
        # The twin lives in a program that uses random numbers differently.
        random.seed(shadow.random()), np.random.seed(shadow.randrange(10**6))
        w = cx.call('get_best_value', Q.get_best_value)
        cx.count('twin suggestions')
        cx.check(w == v, 'suggestions of the same seed differ',
                 '%r and %r at step %d' % (v, w, step))
        if not cx.flip(skip):
            s = float(means[i] + sd * cx.rng.randn())
            if cx.flip(.2):
                s = -1.
            cx.call('adjust_score', P.adjust_score, s)
            Q.adjust_score(s)
            M.s[i].append(s)
        if cx.flip(extra):
            j = cx.int(0, len(M.values) - 1)
            s = float(means[j] + sd * cx.rng.randn())
            cx.call('adjust_score', P.adjust_score, s, j)
            Q.adjust_score(s, index=j)
            M.s[j].append(s)
            cx.count('explicit scores')
        if hasattr(P, 'counts_'):
            cx.check(list(P.counts_) == [len(s) for s in M.s],
                     'credited values', '%s instead of %s' % (
                         P.counts_, [len(s) for s in M.s]))
    if explore and n <= 6:
        cx.count('long explorations')
        cx.check(seen == set(range(n)), 'random exploration misses a value',
                 '%s of %d in %d calls' % (seen, n, explored))
    if phases & {'best'}:
        cx.nontrivial((vals, c, tuple(trace), seed))
    cx.sample(dict(values=vals, seed=seed, trace=trace[:30]))
