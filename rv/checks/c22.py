"""C22: import of trained CART trees by the experiment."""
import numpy as np

from rv import gen, oracle
from rv.core import Violation

RULE = """Sequences of CART trees trained on random (sub)samples (depth 1-6 and 9,
ties, constant features, several classes) are imported, merged, turned into
leaves and paths and trimmed with random quotas; every object is compared with
an independent traversal of the fitted trees and with an exact routing oracle.
Non-trivial: at least two different trees merged; distinct by (trees, data,
quotas)."""
ASSUMPTIONS = ["features are exactly representable in single precision (CART "
               "rounds them)"]
LIMITS = {'quick': dict(cases=4500, budget=100),
          'thorough': dict(cases=112500, budget=600)}
MINIMUM = {'trees imported': 2500, 'splits compared': 8000,
           'nodes compared': 8000, 'initial paths': 2500,
           'paths of further trees': 1500, 'unreachable leaves': 300,
           'trimmed nodes': 500, 'removed splits': 500,
           'shallow trees': 200}


def setup():
    pass


class Data:
    pass


def data(cx, nmax=40, many=0):
    r = cx.rng
    D = Data()
    n, m = cx.int(6, nmax), cx.int(1, 5)
    style = cx.pick(['binary', 'int', 'half', 'float'] * 3 +
                    ['ulp', 'large'])
    if style == 'binary':
        X = r.randint(0, 2, (n, m)).astype(float)
    elif style == 'int':
        X = r.randint(-4, 5, (n, m)).astype(float)
    elif style == 'half':
        X = r.randint(-6, 7, (n, m)) / 2.
    elif style == 'ulp':        # thresholds that single precision cannot hold
        X = 2. ** 24 - r.randint(0, 6, (n, m))
    elif style == 'large':
        X = r.randint(-4, 5, (n, m)) * 4096. + r.randint(0, 2, (n, m)) / 8.
    else:
        X = np.round(r.randn(n, m) * 64) / 64.
    if cx.flip(.2):
        X[:, cx.int(0, m - 1)] = cx.int(-1, 1)
    k = cx.pick([2, 2, 3, 4])
    if many:
        n, k = many + cx.int(0, 40), many
        X = X[r.randint(0, len(X), n)] + r.randint(0, 3, (n, m))
    y = r.randint(0, k, n)
    if cx.flip(.6):
        f = r.randint(m)
        y = ((X[:, f] > np.median(X[:, f])) + 2 * (
            X[:, r.randint(m)] > 0)).astype(int) % k
        e = r.rand(n) < .15
        y[e] = r.randint(0, k, e.sum())
    y[r.permutation(n)[:k]] = np.arange(k)
    D.X, D.y, D.k = X, y.astype(int), k
    return D


def cart(X, y, depth, seed=0, leaves=None):
    from sklearn.tree import DecisionTreeClassifier
    return DecisionTreeClassifier(max_depth=depth, random_state=seed,
                                  max_leaf_nodes=leaves).fit(X, y)


def traverse(t):
    """{heap position: (feature, threshold)} of the inner nodes."""
    t = t.tree_
    res, todo = {}, [(0, 0)]
    while todo:
        i, h = todo.pop()
        if t.children_left[i] == -1:
            continue
        res[h] = (int(t.feature[i]), float(t.threshold[i]))
        todo += [(t.children_left[i], 2 * h + 1),
                 (t.children_right[i], 2 * h + 2)]
    return res


def pieces(ex, t, splits):
    t = t.tree_
    n = t.node_count
    il = ex.get_is_leaves(n, t.children_left, t.children_right)
    all_splits = ex.get_all_splits(n, t.feature, t.threshold, il)

    def nodes(combined):
        return ex.get_all_nodes(t.children_left, t.children_right, n,
                                t.feature, t.threshold, il, combined)
    return all_splits, nodes


def check_splits(cx, d, want, what):
    """d holds exactly the pairs in want, in that order when it is a list."""
    got = {(int(f), float(t)): s for (f, t), s in d.items()}
    cx.count('splits compared', len(got))
    cx.check(set(got) == set(want) and len(got) == len(d),
             what + ': distinct splits', '%s instead of %s' % (
                 sorted(got), sorted(want)))
    cx.check(sorted(s.id for s in got.values()) == list(range(len(got))),
             what + ': numbering', str([s.id for s in got.values()]))
    for (f, t), s in got.items():
        cx.check((int(s.feature), float(s.threshold)) == (f, t),
                 what + ': feature and threshold')
    return {s.id: q for q, s in got.items()}


def as_problem(D, depth, ids, cands):
    P = gen.TreeProblem()
    P.X, P.y, P.k, P.depth = D.X, D.y, D.k, depth
    P.splits = [ids[i] for i in range(len(ids))]
    P.cands, P.paths, P.rows = cands, [], None
    return P


def check_path(cx, P, p, what):
    """Best target and exact count of a path."""
    oracle.check_path(cx, P, p, what)
    cnt = oracle.class_counts(P, p.leaf_id, oracle.assign_of(p))
    cx.check(p.cost == cnt.max(), what + ': count', '%s instead of %s' % (
        p.cost, cnt.max()), problem=P)
    cx.check(cnt[p.target] == cnt.max(), what + ': target', '%s of %s' % (
        p.target, cnt), problem=P)


def fixed(cx, ex):
    """The known defect: trimming removes the split of the initial tree."""
    import col_gen_estimator as cg
    nodes, splits = {}, {}
    for h in range(3):
        nodes[h] = cg.Node()
        nodes[h].id = h
        nodes[h].candidate_splits = []
    for i in range(3):
        s = cg.Split()
        s.id, s.feature, s.threshold = i, 0, float(i)
        splits[0, float(i)] = s
    for h, s in ((0, 0), (1, 0), (1, 0), (1, 1), (2, 2)):
        nd = cg.Node()
        nd.id, nd.last_split = h, s
        nd.candidate_splits, nd.candidate_splits_count = [s], [1]
        ex.merge_all_nodes(nodes, {h: nd})
    X = np.array([[0.], [1.], [2.], [3.]])
    y = np.array([0, 1, 0, 1])
    with gen.quiet():
        _, paths = ex.get_all_leaves_paths(
            nodes, 2, ex.get_splits_list(splits), X, y)
        out = ex.reduce_splits(ex.get_nodes_list(nodes),
                               ex.get_splits_list(splits), 1, 1)
    for p in paths.values():
        for j, s in zip(p.node_ids, p.splits):
            cx.check(s in out[j].candidate_splits,
                     'trimming removes a split of the initial tree',
                     'node %d keeps %s but the initial tree uses %d' % (
                         j, out[j].candidate_splits, s))


def case(cx):
    import examples.dtree_experiment as ex
    if cx.idx == 0:
        return fixed(cx, ex)
    gen.seed_global(cx)
    D = data(cx)
    depth = cx.pick([1, 2, 2, 3, 3, 4] * 8 + [5, 5, 6, cx.pick([4, 5, 9])])
    N = 2 ** depth - 1
    import col_gen_estimator as cg
    nodes = {}
    for h in range(N):
        nodes[h] = cg.Node()
        nodes[h].id = h
        nodes[h].candidate_splits = []
    merged, order = {}, []
    seen = [dict() for _ in range(N)]
    last = [None] * N
    trees = []
    number = cx.int(1, 8)
    for i in range(number):
        if i == number - 1 and cx.flip(.8):
            rows = np.arange(len(D.y))
        else:
            rows = cx.rng.permutation(len(D.y))[:cx.int(3, len(D.y))]
        t = cart(D.X[rows], D.y[rows], depth, i, cx.pick([None, None, 3]))
        want = traverse(t)
        trees.append(want)
        cx.count('trees imported')
        cx.count('shallow trees', len(want) < N)
        with gen.quiet():
            own, nodes_of = cx.call('get_all_splits', pieces, ex, t, None)
        ids = check_splits(cx, own, set(want.values()), 'one tree')
        for q in [ids[j] for j in range(len(ids))]:
            if q not in order:
                order.append(q)
        before = {k: s.id for k, s in merged.items()}
        merged = cx.call('merge_all_splits', ex.merge_all_splits, merged, own)
        ids = check_splits(cx, merged, set(order), 'merged')
        cx.check(all(merged[k].id == v for k, v in before.items()),
                 'merging renumbers splits')
        with gen.quiet():
            tn = cx.call('get_all_nodes', nodes_of, merged)
        cx.check(set(tn) == set(want), 'nodes of a tree',
                 '%s instead of %s' % (set(tn), set(want)))
        for h, nd in tn.items():
            cx.count('nodes compared')
            cx.check(nd.id == h and [ids[s] for s in nd.candidate_splits] ==
                     [want[h]] and ids[nd.last_split] == want[h],
                     'split of a node', 'node %d: %s %s' % (
                         h, nd.candidate_splits, want[h]))
        count = cx.pick([1, 1, 1, 5, 1000])
        with gen.quiet():
            nodes = cx.call('merge_all_nodes', ex.merge_all_nodes, nodes, tn,
                            count) if count > 1 else \
                cx.call('merge_all_nodes', ex.merge_all_nodes, nodes, tn)
        for h in want:
            q = want[h]
            seen[h][q] = seen[h].get(q, 0) + count
            last[h] = q
        for h in range(N):
            nd = nodes[h]
            got = {ids[s]: c for s, c in zip(nd.candidate_splits,
                                             nd.candidate_splits_count)}
            cx.check(got == seen[h] and len(got) == len(
                nd.candidate_splits) == len(nd.candidate_splits_count),
                'merged candidate counts', 'node %d: %s instead of %s' % (
                    h, got, seen[h]))
            if last[h] is not None:
                cx.check(ids[nd.last_split] == last[h],
                         'last split of a node')
    if not order:
        return
    ids = {s.id: q for q, s in merged.items()}
    ids = {i: (int(f), float(t)) for i, (f, t) in ids.items()}
    for h in range(N):
        if not nodes[h].candidate_splits:
            nodes[h].candidate_splits.append(0)
            nodes[h].candidate_splits_count.append(0)
            nodes[h].last_split = 0
    cands = [list(nodes[h].candidate_splits) for h in range(N)]
    P = as_problem(D, depth, ids, cands)
    with gen.quiet():
        splits = ex.get_splits_list(merged)
        leaves, paths = cx.call('get_all_leaves_paths',
                                ex.get_all_leaves_paths, nodes, depth, splits,
                                D.X, D.y)
        leaves = ex.get_leaves_list(leaves)
        paths = ex.get_paths_list(paths)
        node_list = ex.get_nodes_list(nodes)
    cx.check([s.id for s in splits] == list(range(len(splits))) and
             [nd.id for nd in node_list] == list(range(N)) and
             [l.id for l in leaves] == list(range(2 ** depth)),
             'lists are not in the order of the ids')
    for l in leaves:
        tu = oracle.turns(depth, l.id)
        cx.check(sorted(l.left_nodes) == sorted(j for j, a in tu if a) and
                 sorted(l.right_nodes) == sorted(j for j, a in tu if not a),
                 'turns of a leaf', 'leaf %d: %s %s' % (
                     l.id, l.left_nodes, l.right_nodes))
    cx.check(sorted(p.leaf_id for p in paths) == list(range(2 ** depth)),
             'one initial path per leaf')
    for p in paths:
        cx.count('initial paths')
        check_path(cx, P, p, 'initial path')
        cx.check(all(s == nodes[j].last_split for j, s in zip(
            p.node_ids, p.splits)), 'initial tree uses the last splits')
    cx.check(len({p.id for p in paths}) == len(paths), 'ids of the paths')
    # At least as accurate as the last tree when the initial tree extends it.
    if all(last[h] == q for h, q in trees[-1].items()):
        acc = int((t.predict(D.X) == D.y).sum())
        total = sum(p.cost for p in paths)
        cx.check(total >= acc, 'initial tree worse than CART',
                 '%s < %s' % (total, acc), problem=P)
    with gen.quiet():
        splits = cx.call('add_rows_to_splits', ex.add_rows_to_splits, splits,
                         D.X)
    for s in splits:
        left = oracle.goes_left(D.X, ids[s.id])
        cx.check(set(s.left_rows) == set(np.flatnonzero(left)) and
                 set(s.right_rows) == set(np.flatnonzero(~left)),
                 'rows of a split', str(s.id))
    trim(cx, ex, P, nodes, node_list, splits, paths, seen)
    further(cx, ex, P, D, depth, merged, splits, leaves)
    if len({tuple(sorted(t.items())) for t in trees}) > 1:
        cx.nontrivial((trees, D.y.tolist(), cands))
    cx.sample(dict(rows=D.X.shape, depth=depth, trees=number,
                   splits=len(order), candidates=cands))


def trim(cx, ex, P, nodes, node_list, splits, paths, seen):
    q_root, q_node = cx.int(1, 6), cx.int(1, 5)
    old = [dict(zip(nd.candidate_splits, nd.candidate_splits_count))
           for nd in node_list]
    with gen.quiet():
        out = cx.call('reduce_splits', ex.reduce_splits, node_list, splits,
                      q_root, q_node)
    cx.check([nd.id for nd in out] == list(range(len(old))),
             'nodes after trimming')
    used = set()
    for nd in out:
        q = q_root if nd.id == 0 else q_node
        have = old[nd.id]
        keep = list(nd.candidate_splits)
        used |= set(keep)
        cx.count('trimmed nodes', len(keep) < len(have))
        cx.check(len(keep) == min(q, len(have)) == len(set(keep)) and
                 set(keep) <= set(have), 'number of candidates kept',
                 'node %d keeps %s of %s (quota %d)' % (nd.id, keep, have, q))
        cx.check([have[s] for s in keep] == list(nd.candidate_splits_count),
                 'counts after trimming', '%s %s %s' % (
                     keep, nd.candidate_splits_count, have))
        # The least frequent one may be the one of the initial tree.
        top = sorted(have.values(), reverse=True)[:len(keep)]
        got = sorted((have[s] for s in keep), reverse=True)
        cx.check(got == top or (nd.last_split in keep and
                                got[:-1] == top[:-1]) or
                 (nd.last_split in keep and sorted(
                     (have[s] for s in keep if s != nd.last_split),
                     reverse=True) == top[:len(keep) - 1]),
                 'most frequent candidates are kept',
                 'node %d keeps counts %s instead of %s' % (nd.id, got, top))
        if nd.last_split not in keep:
            cx.count('known: split of the initial tree trimmed')
            cx.check(have[nd.last_split] <= min(got),
                     'frequent split of the initial tree trimmed')
    for s in splits:
        cx.count('removed splits', bool(s.removed))
        cx.check(bool(s.removed) == (s.id not in used),
                 'removed mark of a split', '%d: %s' % (s.id, s.removed))


def further(cx, ex, P, D, depth, merged, splits, leaves):
    """Paths of a further tree, as far as it uses the remaining splits."""
    for i in range(cx.int(1, 2)):
        rows = cx.rng.permutation(len(D.y))[:max(4, int(.8 * len(D.y)))]
        t = cart(D.X[rows], D.y[rows], depth, 7 + i)
        want = traverse(t)
        _, nodes_of = pieces(ex, t, None)
        tn = nodes_of(merged)
        key = {(int(f), float(th)): s for (f, th), s in merged.items()}
        for leaf in leaves:
            p = cx.call('get_path_for_leaf', ex.get_path_for_leaf, leaf, tn,
                        depth, splits, D.X, D.y)
            tu = oracle.turns(depth, leaf.id)
            ok = all(h in want and want[h] in key and
                     not key[want[h]].removed for h, _ in tu)
            cx.check((p is not None) == ok, 'path of a further tree',
                     'leaf %d: %s although the tree has %s' % (
                         leaf.id, p and p.splits, want))
            if p is None:
                cx.count('unreachable leaves')
                continue
            cx.count('paths of further trees')
            cx.check(p.leaf_id == leaf.id and {
                j: P.splits[s] for j, s in oracle.assign_of(p).items()} ==
                {h: want[h] for h, _ in tu}, 'splits of a further path')
            Q = as_problem(D, depth, dict(enumerate(P.splits)), [
                list(range(len(P.splits)))] * P.n_nodes)
            check_path(cx, Q, p, 'further path')
