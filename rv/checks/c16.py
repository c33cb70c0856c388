"""C16: exact path pricing against enumeration of all paths of the leaf."""
import copy

import numpy as np

from rv import gen, oracle, probe

RULE = """Exact pricing objects (constraint-programming, MIP, and fixed-target
MIP) of random leaves, driven through sequences of random and real dual
vectors with new consistent virtual cut rows in between; every returned path
is checked for leaf, target, structure and true reduced cost, and the best one
is compared with the maximum over all paths of the leaf by enumeration.
Non-trivial: a path was returned; distinct by (problem size, duals)."""
ASSUMPTIONS = ["pricing solvers work with coefficients rounded to 1e-5 "
               "(constraint programming) or their feasibility tolerance"]
LIMITS = {'quick': dict(cases=4800, budget=100),
          'thorough': dict(cases=120000, budget=600)}
MINIMUM = {'big problems': 15,
           'sat calls': 500, 'mip calls': 200, 'old calls': 200,
           'paths returned': 500, 'nothing returned': 200,
           'calls with cuts': 200, 'pricing calls in trainings': 500, 'updates of a used object': 500,
           'partly changed duals': 300}


def setup():
    probe.install()


def random_duals(cx, P, removed, cut_rows):
    """(leaf, row, node/split) duals with the shapes of the master's."""
    r = cx.rng
    scale = cx.pick([.3, 1., 3.])
    kind = cx.pick(['random', 'sparse', 'zero', 'integer', 'tight', 'fine'])
    leaf = [float(v) for v in r.randn(P.n_leaves) * scale * 2 +
            len(P.y) * cx.pick([0, 0, .2, .5])]
    row = r.rand(len(P.y)) * scale * cx.pick([0, .3, 1])
    ns = r.randn(P.n_leaves, P.n_nodes, len(P.splits)) * scale
    if kind == 'sparse':
        row *= r.rand(len(row)) < .3
        ns *= r.rand(*ns.shape) < .4
    elif kind == 'zero':
        row[:] = 0
        ns[:] = 0
    elif kind == 'integer':
        row, ns = np.round(row), np.round(ns)
        leaf = [float(round(v)) for v in leaf]
    elif kind == 'fine':   # Small differences decide between many equal paths.
        eps = cx.pick([4e-4, 4e-3])
        row = np.abs(np.round(row)) + r.rand(len(row)) * eps
        ns = np.round(ns) + (2 * r.rand(*ns.shape) - 1) * eps
    row[removed] = 0.
    nsd = {l: {j: {s: float(ns[l, j, s]) for s in P.cands[j]}
               for j, _ in oracle.turns(P.depth, l)}
           for l in range(P.n_leaves)}
    cut = r.randn(len(cut_rows)) * scale
    if cx.flip(.5):
        cut *= r.rand(len(cut)) < cx.pick([0, .3, .7])
    cut = [float(v) for v in cut]
    row = [float(v) for v in row]
    if kind == 'tight' or kind == 'fine' and cx.flip(.3):
        leaf = tight(cx, P, row, nsd, cut, cut_rows)
    return leaf, row, nsd, cut


def tight(cx, P, row, nsd, cut, cut_rows):
    """Leaf duals with which the best path is about to improve."""
    leaf, z = [], [0.] * P.n_leaves
    for l in range(P.n_leaves):
        v, _ = oracle.price_leaf(P, l, (z, row, nsd, cut), cut_rows)
        leaf.append(v + cx.pick([1e-2, -1e-2, .3, -.3, 0., -8e-4, -5e-4]))
    return leaf


def changed_duals(cx, P, d, new, removed, cut_rows):
    """The duals d with some parts replaced by those of new."""
    leaf, row, nsd, cut = (copy.deepcopy(v) for v in d[:4])
    cut = cut + new[3][len(cut):]
    what = cx.pick(['leaf', 'row', 'rows', 'cut', 'split', 'splits',
                    'nothing'])
    if what == 'leaf':
        leaf = new[0]
    elif what == 'row':
        i = cx.int(0, len(row) - 1)
        if not removed[i]:
            row[i] = cx.pick([0., new[1][i]])
    elif what == 'rows':
        row = new[1]
    elif what == 'cut' and cut:
        i = cx.int(0, len(cut) - 1)
        cut[i] = cx.pick([0., new[3][i]])
    elif what == 'splits':
        nsd = new[2]
    elif what == 'split':
        l = cx.int(0, P.n_leaves - 1)
        j = cx.pick(sorted(nsd[l]))
        s = cx.pick(sorted(nsd[l][j]))
        nsd[l][j][s] = cx.pick([0., new[2][l][j][s]])
    if cx.flip(.5):
        leaf = tight(cx, P, row, nsd, cut, cut_rows)
    return leaf, row, nsd, cut


def virtual_row(cx, P):
    """Turns of a random point at all splits, different from real rows."""
    m = P.X.shape[1]
    x = cx.rng.randn(m) * cx.pick([.5, 1, 3, 100])
    if cx.flip(.4):
        x = np.array([P.X[cx.int(0, len(P.X) - 1), j] for j in range(m)])
    return [bool(x[f] <= t) for f, t in P.splits]


class Harness:
    """Pricing objects of one problem and the cuts they were told."""

    def __init__(self, cx, P, leaves=None, kinds=('sat', 'mip', 'old')):
        import col_gen_estimator as cg
        self.P = P
        self.kind = cx.pick(kinds)
        O = self.O = gen.build(P)
        probe.start(workers=cx.pick([1] * 9 + [7]))
        est = gen.tree_estimator(P, O, use_old_sp=self.kind == 'old')
        self.sps = []
        ls = leaves or [cx.int(0, P.n_leaves - 1)
                        for _ in range(cx.int(1, 2))]
        for l in dict.fromkeys(ls):
            if self.kind == 'sat':
                self.sps.append((est.subproblems[1][l], l, None))
            elif self.kind == 'old':
                t = cx.int(0, P.k - 1)
                self.sps.append((est.subproblems[1][l * P.k + t], l, t))
            else:
                sp = cg.DTreeSubProblem(
                    O.leaves[l], O.nodes, O.splits, O.targets, P.depth,
                    data_rows=O.data_rows)
                self.sps.append((sp, l, None))
        self.removed = np.array([
            O.data_rows is not None and
            bool(O.data_rows[i].removed_from_master)
            for i in range(len(P.y))])
        self.cut_rows = []
        self.steps, self.last = 0, None

    def step(self, cx, duals=None):
        """One pricing round; yields (object, leaf, target, paths, duals)."""
        P = self.P
        new = []
        if cx.flip(.35):
            new = [virtual_row(cx, P)
                   for _ in range(cx.pick([1, 2, 3, 1, 2, 3, 7, 12]))]
        self.cut_rows = self.cut_rows + new
        d = random_duals(cx, P, self.removed, self.cut_rows)
        if self.last is not None and cx.flip(.4):
            cx.count('partly changed duals')
            d = changed_duals(cx, P, self.last, d, self.removed,
                              self.cut_rows)
        self.last = d
        d += (new,)
        if self.cut_rows:
            cx.count('calls with cuts')
        if self.steps:
            cx.count('updates of a used object')
        self.steps += 1
        for sp, leaf, target in self.sps:
            cx.call('update_subproblem', sp.update_subproblem, P.X, P.y, d)
            out = cx.call('generate_columns', sp.generate_columns, P.X, P.y,
                          d, '')
            cx.count(self.kind + ' calls')
            yield sp, leaf, target, out, d


def case(cx):
    gen.seed_global(cx)
    P = gen.tree_problem(cx, nmax=20, max_cands=cx.pick([3, 6]),
                         depth=gen.deep(cx, .06), rich=.05, big=.02)
    cx.count('depth 4 problems', P.depth == 4)
    cx.count('deeper problems', P.depth > 4)
    if P.depth < 4 and not P.rich and cx.flip(.2):
        training(cx, P)
        return
    H = Harness(cx, P)
    rec = probe.start(workers=cx.pick([1] * 9 + [7]))
    for _ in range(cx.int(1, 5)):
        n = len(rec.ev)
        for sp, leaf, target, out, d in H.step(cx):
            e = rec.ev[-1]
            judge(cx, P, H.kind, leaf, target, out, d, H.cut_rows,
                  e['status'], e['gap'], H.steps)
    probe.stop()


def training(cx, P):
    """The pricing rounds of a real training."""
    O = gen.build(P)
    opt = gen.tree_options(cx)
    old = opt['use_old_sp'] = cx.flip(.4)
    rec = probe.start()
    est = gen.tree_estimator(P, O, **opt)
    cx.call('fit', est.fit, P.X, P.y)
    probe.stop()
    where = {}
    for i, sp in enumerate(est.subproblems[1]):
        where[id(sp)] = (i // P.k, i % P.k) if old else (i, None)
    cuts, n = [], 0
    for e in rec.ev:
        if e['kind'] == 'solve_rmp':
            cuts = cuts + list(e['ret'][4])
        elif e['kind'] == 'generate' and id(e['obj']) in where and \
                cx.flip(.5) and n < 30:
            n += 1
            leaf, target = where[id(e['obj'])]
            cx.count('pricing calls in trainings')
            judge(cx, P, 'old' if old else 'sat', leaf, target, e['ret'],
                  e['args'][2], cuts, e['status'], e['gap'], n)


def judge(cx, P, kind, leaf, target, out, d, cut_rows, status, gap, steps):
    for p in out:
        cx.check(int(p.leaf_id) == leaf, 'path of another leaf',
                 '%s instead of %s' % (p.leaf_id, leaf))
        oracle.check_path(cx, P, p, 'priced')
        if target is not None:
            cx.check(p.target == target, 'path with another target',
                     '%s instead of %s' % (p.target, target))
    cx.count('paths returned', len(out))
    if not out:
        cx.count('nothing returned')
    scale = 1 + max(abs(v) for v in d[0]) + len(P.y)
    prec = 1e-7 * scale if kind == 'sat' else 2e-5 * scale
    rcs = [oracle.path_reduced_cost(P, p, d, cut_rows) for p in out]
    for p, v in zip(out, rcs):
        cx.check(v > -prec, 'returned path does not improve',
                 '%s %s target %s: %.9g' % (
                     p.node_ids, p.splits, p.target, v),
                 problem=P, duals=d, kind=kind)
    if kind == 'sat':
        if not gap or gap[0] != 0:
            cx.count('not proven')
            return
    elif any(s not in (0, 2) for s in status):   # optimal or 'infeasible'
        cx.count('mip solver failed')
        return
    best, arg = oracle.price_leaf(P, leaf, d, cut_rows, target)
    tol = 1.1e-5 * (len(P.y) + P.depth + len(cut_rows) + 1) \
        if kind == 'sat' else 5e-5 * scale
    if not out:
        cx.check(best <= tol, 'nothing returned although a path improves',
                 '%s: %.9g splits %s cuts %d step %d' % (
                     kind, best, arg, len(cut_rows), steps),
                 problem=P, duals=d)
        return
    cx.check(max(rcs) >= best - tol, 'best path not returned',
             '%s: %.9g instead of %.9g (cuts %d, step %d)' % (
                 kind, max(rcs), best, len(cut_rows), steps),
             problem=P, duals=d)
    cx.nontrivial((P.size(), d[0], steps))
    cx.sample(dict(size=P.size(), kind=kind, leaf=leaf, cuts=len(
        cut_rows), returned=len(out), best=best))
