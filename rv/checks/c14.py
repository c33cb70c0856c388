"""C14: well-formedness of trained trees and predictions by following them."""
import numpy as np

from rv import gen, oracle, probe, shapes

RULE = """Complete trainings of decision trees (depth 1-3, random candidate
splits, initial trees, cut/pricing options, iteration limits); the selected
paths are checked for structure and consistency, all node assignments that are
reachable by rows are walked, and predictions of unseen rows (ties, huge
values, other containers, shuffled and single-row batches) are compared with
walking the tree. Non-trivial: depth at least two with more than one distinct
label in the tree; distinct by (problem size, selected tree)."""
ASSUMPTIONS = ["the trained tree is master_problem.selected_paths"]
LIMITS = {'quick': dict(cases=2250, budget=100),
          'thorough': dict(cases=56250, budget=600)}
MINIMUM = {'big problems': 15,
           'trees': 300, 'depth 3 trees': 30, 'rows predicted': 10000,
           'leaves without training rows': 50, 'depth 4 trees': 10,
           'trees with many classes': 10, 'containers': 200}


def setup():
    probe.install()


def walk(P, tree, T):
    """Leaf reached by every row in the tree (node -> split)."""
    res = []
    for row in T:
        j = 0
        for _ in range(P.depth):
            f, t = P.splits[tree[j]]
            j = 2 * j + 1 if row[f] <= t else 2 * j + 2
        res.append(j - P.n_nodes)
    return res


def tree_of(cx, P, paths):
    """Checks the selected paths; returns (node -> split, leaf -> target)."""
    cx.check(sorted(int(p.leaf_id) for p in paths) ==
             list(range(P.n_leaves)), 'one path per leaf',
             '%s' % [p.leaf_id for p in paths])
    tree, target = {}, {}
    for p in paths:
        oracle.check_path(cx, P, p, 'selected')
        for j, s in oracle.assign_of(p).items():
            cx.check(tree.setdefault(j, s) == s,
                     'selected paths use different splits at a node',
                     'node %s: %s and %s' % (j, tree[j], s))
        target[int(p.leaf_id)] = int(p.target)
    return tree, target


def case(cx):
    gen.seed_global(cx)
    kind = cx.pick(['any'] * 14 + ['deep', 'classes'])
    if kind == 'deep':
        P = gen.tree_problem(cx, depth=gen.deep(cx, 1., False), nmax=40)
        cx.count('depth 4 trees')
        cx.count('depth 5 trees', P.depth == 5)
    elif kind == 'classes':
        P = gen.tree_problem(cx, depth=cx.pick([1, 2]), k=cx.pick([40, 140]),
                             nmin=140, nmax=160, max_splits=4, trees=5)
        cx.count('trees with many classes')
    else:
        P = gen.tree_problem(cx, rich=.04, big=.04)
    O = gen.build(P)
    opt = gen.tree_options(cx)
    opt['max_iterations'] = cx.pick([-1, -1, 1, 2, 5, 12] if kind == 'any'
                                    else [1, 1, 2, 3])
    labels = np.arange(P.k) * 3 - 50 if P.k > 4 else np.array(cx.pick([list(range(P.k)), [3, 7, 11, 40][:P.k],
                               list('acxz')[:P.k], [-5, -2, 0, 9][:P.k]]))
    probe.start(workers=cx.pick([1, 1, 1, 1, 1, 1, 1, 7]))
    est = gen.tree_estimator(P, O, **opt)
    cx.call('fit', est.fit, P.X, labels[P.y])
    probe.stop()
    cx.count('trees')
    if P.depth == 3:
        cx.count('depth 3 trees')
    sel = est.master_problem.selected_paths
    tree, target = tree_of(cx, P, sel)
    for l in range(P.n_leaves):
        if not oracle.route(P, l, tree).any():
            cx.count('leaves without training rows')
    # Rows built to reach every reachable leaf, with ties and extremes.
    T = np.vstack([P.X, gen.unseen(cx, P, 400 if cx.flip(.05) else 16)])
    dest = walk(P, tree, T)
    want = [labels[target[l]].item() for l in dest]
    before = [(p.leaf_id, list(p.node_ids), list(p.splits), p.target)
              for p in sel]

    def compare(M, want, what):
        got = np.asarray(cx.call('predict', est.predict, M))
        cx.count('rows predicted', len(want))
        cx.check(got.shape == (len(want),), 'shape of predictions')
        cx.check(got.tolist() == list(want),
                 'prediction differs from the tree',
                 '%s: %s instead of %s' % (what, got.tolist(), list(want)),
                 tree=tree, target=target, problem=P)
    compare(T, want, 'plain')
    o = cx.rng.permutation(len(T))
    compare(T[o], [want[i] for i in o], 'shuffled')
    for i in o[:3]:
        compare(T[i:i + 1], [want[i]], 'single row')
    o = np.concatenate([o, o[:5]])
    compare(T[o], [want[i] for i in o], 'repeated')
    integral = bool((P.X == np.round(P.X)).all() and
                    (np.abs(P.X) < 100).all())
    # Keep the training rows only: exactly representable in all types.
    for name, M in shapes.containers(cx, P.X, integral):
        cx.count('containers')
        compare(M, want[:len(P.X)], name)
    compare(T, want, 'again')
    cx.check(before == [(p.leaf_id, list(p.node_ids), list(p.splits),
                         p.target) for p in sel],
             'prediction changed the tree')
    if P.depth > 1 and len(set(target.values())) > 1:
        cx.nontrivial((P.size(), tree, target))
    cx.sample(dict(size=P.size(), options=opt, tree=tree, targets=target))
