"""C19: cuts of the tree master, observed at the LP solver."""
import numpy as np

from rv import find, gen, oracle, probe

RULE = """Column generation loops driven through many iterations (one or few
paths each, priced by the real pricing problems or random) in all cut
configurations, with a monitor on the LP solver that sees the solution before
and the constraints after every cut round, and after every path insertion. When
the cut rounds end before their limit, all real and consistent virtual rows are
enumerated against the LP solution.
Non-trivial: at least one constraint was added by a cut round; distinct by
(problem size, options, coefficients of the cuts)."""
ASSUMPTIONS = ["a constraint is violated when the paths its row follows sum "
               "to a value that differs from 1 by more than 5e-7"]
LIMITS = {'quick': dict(cases=1750, budget=100),
          'thorough': dict(cases=43750, budget=600)}
MINIMUM = {'big problems': 3,
           'cut rounds': 1000, 'row cuts': 500, 'virtual cuts': 100,
           'paths inserted after cuts': 1000, 'pricing with cuts': 100,
           'order of duals': 500, 'rows searched for cuts': 100,
           'virtual rows searched for cuts': 2000, 'cases with several rounds of cuts': 20}


def setup():
    probe.install()


class Watch:
    """Follows the constraints of one LP solver."""

    def __init__(self, cx, P, mp):
        self.cx, self.P, self.mp = cx, P, mp
        self.lp = find.lp(mp)
        self.base = self.seen = self.lp.NumConstraints()
        self.values = None
        self.row_cuts = []          # (constraint, candidate rows)
        self.virtual = []           # constraints
        self.fresh = []             # virtual constraints of this solve_rmp
        self.rounds = 0
        self.follow = {}
        probe.on_solve(self.before, self.after)

    def rows_of(self, p):
        k = id(p)
        if k not in self.follow:
            self.follow[k] = (p, oracle.route(
                self.P, int(p.leaf_id), oracle.assign_of(p)))
        return self.follow[k][1]

    def paths(self):
        return find.paths(self.mp)

    def after(self, solver, status):
        if solver is not self.lp or status != 0:
            return
        self.values = {p.id: self.lp.variable(p.id).solution_value()
                       for p in self.paths()}

    def before(self, solver):
        if solver is not self.lp:
            return
        n = self.lp.NumConstraints()
        if n == self.seen:
            return
        cx = self.cx
        new = self.lp.constraints()[self.seen:n]
        self.seen = n
        self.rounds += 1
        paths = self.paths()
        ids = {p.id for p in paths}
        others = [v for v in self.lp.variables() if v.index() not in ids]
        for c in new:
            co = np.array([c.GetCoefficient(self.lp.variable(p.id))
                           for p in paths])
            cx.check(np.isin(co, (0, 1)).all(), 'coefficient of a cut',
                     str(co.tolist()))
            cx.check(all(c.GetCoefficient(v) == 0 for v in others),
                     'cut constrains other variables', '')
            act = sum(self.values[p.id] for p, q in zip(paths, co) if q)
            cx.check(abs(act - 1) > 5e-7, 'cut is not violated',
                     'the paths of the cut sum to %.9g' % act, problem=self.P)
            cx.check(c.ub() == 1 and (c.lb() <= 0 or c.lb() == 1),
                     'bounds of a cut', '%s %s' % (c.lb(), c.ub()))
            if c.lb() == 1:
                self.fresh.append((c, co))
                continue
            M = np.array([self.rows_of(p) for p in paths])
            cand = np.flatnonzero((M == (co[:, None] == 1)).all(axis=0))
            cx.count('row cuts')
            cx.check(len(cand) > 0, 'row constraint of no row',
                     'coefficients %s' % co.tolist(), problem=self.P)
            self.row_cuts.append([c, cand])

    def solved(self, d):
        """After solve_rmp: d is its result."""
        cx, P = self.cx, self.P
        new = [[bool(v) for v in r] for r in d[4]]
        cx.check(len(new) == len(self.fresh), 'number of rows of new cuts',
                 '%d rows for %d new cuts' % (len(new), len(self.fresh)))
        paths = self.paths()
        for row, (c, co) in zip(new, self.fresh):
            cx.count('virtual cuts')
            cx.check(len(row) == len(P.splits), 'length of a cut row',
                     '%d' % len(row))
            for i, (f, t) in enumerate(P.splits):
                for k, (g, u) in enumerate(P.splits):
                    cx.check(not (f == g and t < u and row[i] and
                                  not row[k]), 'inconsistent virtual row',
                             '%s: left of %s but not of %s' % (
                                 row, (f, t), (g, u)), problem=P)
            self.virtual.append((c, row))
            for p, q in zip(paths, co):
                self.judge(p, c, row)
        self.fresh = []
        cx.check(len(d[3]) == len(self.virtual), 'number of cut duals',
                 '%d for %d cuts' % (len(d[3]), len(self.virtual)))
        if self.virtual:
            cx.count('order of duals')
            for v, (c, _) in zip(d[3], self.virtual):
                cx.check(v == c.dual_value(), 'order of cut duals',
                         '%s instead of %s' % (
                             d[3], [c.dual_value() for c, _ in self.virtual]))
        for i, s in enumerate(find.splits(self.mp)):
            want = {k for k, (_, r) in enumerate(self.virtual) if r[i]}
            rest = set(range(len(self.virtual))) - want
            cx.check(set(s.left_cuts) == want and set(s.right_cuts) == rest,
                     'cuts recorded at a split',
                     '%s %s instead of %s' % (s.left_cuts, s.right_cuts,
                                              want))

    def complete(self, opt):
        """No real or virtual row is violated by the LP solution with which
        the cut rounds ended before their limit."""
        cx, P = self.cx, self.P
        paths = self.paths()
        v = np.array([self.values[p.id] for p in paths])
        tol = 1e-5 + 2e-6 * len(paths)
        if opt['master_beta_constraints_as_cuts']:
            M = np.array([self.rows_of(p) for p in paths])
            top = float((v @ M).max())
            cx.count('rows searched for cuts')
            cx.check(top <= 1 + tol, 'violated row constraint overlooked',
                     'the paths of a row sum to %.9g' % top, problem=P)
        if not opt['master_generate_cuts']:
            return
        ladder = {}
        for i, (f, t) in enumerate(P.splits):
            ladder.setdefault(f, []).append((t, i))
        n = np.prod([len(x) + 1 for x in ladder.values()])
        if n > 5000:
            return
        rows = np.zeros((1, len(P.splits)), bool)
        for x in ladder.values():
            x.sort()
            opts = np.zeros((len(x) + 1, len(P.splits)), bool)
            for k in range(len(x) + 1):
                opts[k, [i for _, i in x[k:]]] = True
            rows = (rows[:, None, :] | opts[None]).reshape(-1, len(P.splits))
        total = np.zeros(len(rows))
        for p, w in zip(paths, v):
            if w:
                a = oracle.assign_of(p)
                ok = np.ones(len(rows), bool)
                for j, left in oracle.turns(P.depth, int(p.leaf_id)):
                    ok &= rows[:, a[j]] == left
                total[ok] += w
        cx.count('virtual rows searched for cuts', len(rows))
        cx.check(total.max() <= 1 + tol, 'violated virtual row overlooked',
                 'the paths of %s sum to %.9g' % (
                     rows[total.argmax()].tolist(), total.max()), problem=P)

    def judge(self, p, c, row):
        f = oracle.cut_follows(self.P, row, int(p.leaf_id),
                               oracle.assign_of(p))
        q = c.GetCoefficient(self.lp.variable(p.id))
        self.cx.check(q == float(f), 'paths of a cut',
                      'leaf %s %s: coefficient %s' % (
                          p.leaf_id, oracle.assign_of(p), q),
                      problem=self.P, row=row)

    def inserted(self, p):
        for c, row in self.virtual:
            self.judge(p, c, row)
        f = self.rows_of(p)
        for e in self.row_cuts:
            q = e[0].GetCoefficient(self.lp.variable(p.id))
            e[1] = e[1][f[e[1]] == (q == 1)]
            self.cx.check(q in (0, 1) and len(e[1]) > 0,
                          'inserted path in a row constraint',
                          'leaf %s %s: coefficient %s' % (
                              p.leaf_id, oracle.assign_of(p), q),
                          problem=self.P)
        if self.virtual or self.row_cuts:
            self.cx.count('paths inserted after cuts')


def case(cx):
    from rv.checks.c18 import random_path
    from rv.checks import c16
    gen.seed_global(cx)
    if cx.flip(.7):
        P = gen.tree_problem(cx, depth=cx.pick([2, 2, 2, 3]), nmax=cx.pick(
            [5, 8, 12]), max_splits=12, many=True, duplicates=False)
    else:
        P = gen.tree_problem(cx, depth=cx.pick([2, 2, 3]), nmax=20,
                             rich=.1, big=.05)
    O = gen.build(P)
    opt = dict(num_master_cuts_round=cx.int(1, 6),
               master_beta_constraints_as_cuts=cx.flip(.5),
               master_generate_cuts=cx.flip(.8), use_old_sp=False)
    est = gen.tree_estimator(P, O, **opt)
    mp = est.master_problem
    priced = cx.flip(.35)
    rec = probe.start(cap=10 ** 9)
    cx.call('generate_mp', mp.generate_mp, P.X, P.y)
    w = Watch(cx, P, mp)
    have = {(int(p.leaf_id), tuple(sorted(oracle.assign_of(p).items())),
             int(p.target)) for p in O.paths}
    few = cx.pick([1, 2, 4, 8])
    with_cuts = 0
    for it in range(cx.pick([10, 20, 20, 30, 40, 50])):
        for _ in range(cx.int(0, few) if it else 0):
            p = random_path(cx, P, have)
            if p is None:
                break
            cx.call('add_column', mp.add_column, p)
            w.inserted(p)
        k = w.rounds
        d = cx.call('solve_rmp', mp.solve_rmp, '')
        if (it + 1) % 10 == 0:
            cx.count('cut rounds')
            with_cuts += w.rounds > k
            if w.rounds - k < opt['num_master_cuts_round'] and d[0]:
                w.complete(opt)
        w.solved(d)
        if not priced:
            continue
        # Pricing has to know the same cuts.
        for level in est.subproblems:
            for sp in level:
                cx.call('update_subproblem', sp.update_subproblem, P.X, P.y,
                        d)
        if cx.flip(.3) or len(d[4]):
            leaf = cx.int(0, P.n_leaves - 1)
            sp = est.subproblems[1][leaf]
            out = cx.call('generate_columns', sp.generate_columns, P.X, P.y,
                          d, '')
            if w.virtual:
                cx.count('pricing with cuts')
            e = rec.ev[-1]
            c16.judge(cx, P, 'sat', leaf, None, out, d,
                      [r for _, r in w.virtual], e['status'], e['gap'], it)
            for p in out:
                key = (int(p.leaf_id), tuple(sorted(
                    oracle.assign_of(p).items())), int(p.target))
                if key not in have:
                    have.add(key)
                    cx.call('add_column', mp.add_column, p)
                    w.inserted(p)
    cx.count('cases with several rounds of cuts', with_cuts > 1)
    if w.rounds:
        cx.nontrivial((P.size(), sorted(opt.items()), len(w.row_cuts),
                       [r for _, r in w.virtual]))
    cx.sample(dict(size=P.size(), options=opt, row_cuts=len(w.row_cuts),
                   virtual=[r for _, r in w.virtual][:3]))
