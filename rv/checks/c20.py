"""C20: quality of the returned tree against exact oracles."""
import numpy as np

from rv import gen, oracle, probe

RULE = """Complete trainings of decision trees (depth 1-3, all option
combinations, iteration limits); the training rows predicted correctly are
compared with the sum of the selected counts, with the best tree assembled
from the final and from the initial paths (exact dynamic program) and with the
best tree over all candidate splits; when optimality was reported and proven,
the final LP value is compared with that optimum. Non-trivial: the tree is
better than the best initial one, or worse than the optimum; distinct by
(problem size, values)."""
ASSUMPTIONS = ["the integer master is solved to optimality (small models)",
               "the trained tree is master_problem.selected_paths"]
LIMITS = {'quick': dict(cases=2850, budget=100),
          'thorough': dict(cases=71250, budget=600)}
MINIMUM = {'big problems': 8,
           'trees': 500, 'proven optimal': 100, 'improved': 150,
           'integrality gap or limit': 20, 'depth 3 trees': 40,
           'trainings with merged rows': 80, 'initial paths only': 30}


def setup():
    probe.install()


def judge(cx, P, est, rec, first, X=None, y=None):
    """Guarantees of a training on the initial paths first; returns (correct
    rows, those of the best initial tree, optimum, number of paths)."""
    X = P.X if X is None else X
    y = P.y if y is None else y
    sel = est.master_problem.selected_paths
    hits = int((np.asarray(cx.call('predict', est.predict, X)) ==
                y).sum())
    total = sum(p.cost for p in sel)
    cx.check(hits == total, 'correct rows and selected counts',
             '%s rows, counts sum to %s' % (hits, total), problem=P)
    added = [e['args'][0] for e in rec.of('add_column') if e['ret']]
    paths = first + added
    best = oracle.best_of_paths(P, paths)
    start = oracle.best_of_paths(P, first)
    cx.check(hits == best, 'not the best tree over the paths found',
             '%s instead of %s (%d paths)' % (hits, best, len(paths)),
             problem=P)
    cx.check(hits >= start, 'worse than the initial tree', '%s < %s' % (
        hits, start), problem=P)
    top = oracle.best_tree(P)
    cx.check(hits <= top, 'better than the optimum', '%s > %s' % (hits, top),
             problem=P)
    cx.check(abs(est.score(X, y) - hits / len(P.y)) < 1e-12,
             'score', '%s' % est.score(X, y))
    if est.mp_optimal_ and probe.proven(est, rec):
        cx.count('proven optimal')
        d = rec.of('solve_rmp')[-1]['ret']
        value = float(sum(d[0])) + float(sum(d[1])) + float(sum(d[3]))
        cx.check(value >= top - 1e-4 * (1 + top),
                 'reported optimal below the true optimum',
                 'LP value %.9g, best tree %s, returned %s' % (
                     value, top, hits), problem=P)
        if value > top + 1e-4:
            cx.count('LP value above the optimum')
    return hits, start, top, len(paths)


def case(cx):
    gen.seed_global(cx)
    kind = cx.pick(['plain', 'plain', 'many', 'cuts'])
    if kind == 'plain':
        trees = cx.pick([None] * 6 + [15, 60])
        P = gen.tree_problem(cx, nmax=cx.pick([30, 30, 80]), trees=trees,
                             many=trees == 60 and cx.flip(.5),
                             depth=gen.deep(cx, .025, False), rich=.06, big=.04)
    else:
        P = gen.tree_problem(cx, depth=cx.pick([2, 2, 3]), nmax=cx.pick(
            [8, 16]), max_splits=cx.pick([6, 9]), many=True,
            duplicates=cx.flip(.3))
    O = gen.build(P)
    opt = gen.tree_options(cx)
    if kind == 'cuts':
        opt.update(num_master_cuts_round=cx.int(1, 5),
                   master_generate_cuts=True)
    cx.count('depth 4 trees', P.depth == 4)
    cx.count('depth 5 trees', P.depth == 5)
    opt['max_iterations'] = cx.pick([-1, -1, -1, 1, 2, 4, 8, 12]
                                    if P.depth < 4 else [1, 2, 3])
    rec = probe.start()
    est = gen.tree_estimator(P, O, **opt)
    first = list(O.paths)
    cx.call('fit', est.fit, P.X, P.y)
    probe.stop()
    cx.count('trees')
    cx.count('depth 3 trees', P.depth == 3)
    cx.count('trainings with merged rows', O.data_rows is not None and any(
        r.removed_from_sp for r in O.data_rows))
    hits, start, top, n = judge(cx, P, est, rec, first)
    cx.count('more than 150 paths', n > 150)
    cx.count('improved', hits > start)
    cx.count('integrality gap or limit', hits < top)
    cx.count('initial paths only', n == len(first))
    if hits > start or hits < top:
        cx.nontrivial((P.size(), hits, start, top, n))
    cx.sample(dict(size=P.size(), options=opt, correct=hits, initial=start,
                   optimum=top, paths=n))
