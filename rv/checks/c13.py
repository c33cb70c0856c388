"""C13: tree geometry, routing and path identity."""
import numpy as np

from rv import oracle

RULE = """Random depths (1 to 11, single leaves up to 70), leaves, split assignments and rows (ties with
thresholds, neighbouring floats, huge values); recorded geometry is compared
with the bits of the leaf number, both routing functions with direct
comparisons, and path identity with equality of (leaf, target, cost, set of
node/split pairs). Non-trivial: every case routes rows over a tree of depth at
least two; distinct by (depth, assignment)."""
ASSUMPTIONS = ["training rows are registered in the splits as documented"]
LIMITS = {'quick': dict(cases=5000, budget=100),
          'thorough': dict(cases=125000, budget=600)}
MINIMUM = {'leaves': 5000, 'routed rows': 10000, 'same paths': 500,
           'different paths': 1000, 'ties': 1000,
           'very deep leaves': 1000}


def case(cx):
    geometry(cx)
    routing(cx)
    for _ in range(8):
        identity(cx)


def geometry(cx):
    import col_gen_estimator as cg
    import examples.dtree_experiment as ex
    d = cx.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 11])
    leaf, path = cg.Leaf(), cg.Path()
    many = cx.flip(.3)          # more levels than any tree in memory
    D, d = d, cx.int(12, 70) if many else d
    cx.count('very deep leaves', 6 * many)
    for l in [min(int(cx.rng.rand() * 2 ** d) + cx.int(0, 1), 2 ** d - 1) for _ in range(4)] + [0, 2 ** d - 1]:
        if cx.flip(.3):
            leaf, path = cg.Leaf(), cg.Path()
        leaf.create_leaf(l, d)
        path.set_leaf(l, d)
        cx.count('leaves')
        t = oracle.turns(d, l)
        cx.check(leaf.id == l and path.leaf_id == l, 'leaf number')
        cx.check(sorted(leaf.left_nodes) == sorted(j for j, w in t if w) and
                 sorted(leaf.right_nodes) == sorted(
                     j for j, w in t if not w), 'turns of a leaf',
                 'depth %d leaf %d: left %s right %s' % (
                     d, l, leaf.left_nodes, leaf.right_nodes))
        cx.check(sorted(path.node_ids) == sorted(j for j, _ in t),
                 'nodes of a path', 'depth %d leaf %d: %s' % (
                     d, l, path.node_ids))
    d = D
    # Parent/child tables of the nodes.
    nodes = []
    for i in range(2 ** d - 1):
        n = cg.Node()
        n.id = i
        nodes.append(n)
    out = ex.preprocess_nodes(nodes, d)
    for i, n in enumerate(out):
        cx.check(n.id == i and n.parent == ((i - 1) // 2 if i else -1),
                 'parent of a node', '%s of %s' % (n.parent, i))
        last = 2 * i + 1 >= 2 ** d - 1
        off = 2 ** d - 1 if last else 0
        cx.check(bool(n.children_are_leaves) == last and
                 (n.left_child, n.right_child) ==
                 (2 * i + 1 - off, 2 * i + 2 - off), 'children of a node',
                 'node %d: %s %s %s' % (i, n.left_child, n.right_child,
                                        n.children_are_leaves))


def routing(cx):
    import col_gen_estimator as cg
    from col_gen_estimator import _dtree_classifier as dt
    import examples.dtree_experiment as ex
    d = cx.int(1, 5)
    m, n = cx.int(1, 4), cx.int(4, 14)
    scale = cx.pick([1., 1., 100., 1e300, 1e-300])
    th = [(cx.int(0, m - 1), float(np.round(cx.rng.randn(), 1)) * scale)
          for _ in range(cx.int(1, 8))]
    X = np.round(cx.rng.randn(n, m), 1) * scale
    for i in range(n):
        for f, t in th:
            if cx.flip(.25):
                X[i, f] = cx.pick([t, np.nextafter(t, np.inf),
                                   np.nextafter(t, -np.inf)])
    for f, t in th:
        cx.count('ties', int((X[:, f] == t).sum()))
    splits = []
    for i, (f, t) in enumerate(th):
        s = cg.Split()
        s.id, s.feature, s.threshold = i, f, t
        splits.append(s)
    if cx.flip(.5):
        got = ex.add_rows_to_splits(splits, X)
        for s, (f, t) in zip(got, th):
            cx.check(s.left_rows == set(np.flatnonzero(X[:, f] <= t)) and
                     s.right_rows == set(np.flatnonzero(~(X[:, f] <= t))),
                     'rows of a split')
        splits = got
    else:
        for s, (f, t) in zip(splits, th):
            s.left_rows = set(np.flatnonzero(X[:, f] <= t).tolist())
            s.right_rows = set(range(n)) - s.left_rows
    assign = [cx.int(0, len(th) - 1) for _ in range(2 ** d - 1)]
    # Independent: walk down the tree.
    dest = []
    for i in range(n):
        j = 0
        while j < 2 ** d - 1:
            f, t = th[assign[j]]
            j = 2 * j + 1 if X[i, f] <= t else 2 * j + 2
        dest.append(j - (2 ** d - 1))
    reached = np.zeros(n, int)
    for l in range(2 ** d):
        leaf, p = cg.Leaf(), cg.Path()
        leaf.create_leaf(l, d)
        p.set_leaf(l, d)
        if cx.flip(.3):
            q = list(p.node_ids)
            cx.rng.shuffle(q)
            p.node_ids = [int(v) for v in q]
        p.splits = [assign[j] for j in p.node_ids]
        want = {i for i in range(n) if dest[i] == l}
        keep = [set(s.left_rows) for s in splits]
        rows = set(dt.get_satisfied_rows(p, leaf, splits))
        cx.check(rows == want, 'set-based routing', 'leaf %d: %s not %s' % (
            l, sorted(rows), sorted(want)), splits=th, assign=assign, X=X)
        cx.check(keep == [set(s.left_rows) for s in splits],
                 'routing changed the splits')
        for i in range(n):
            a = bool(dt.row_satisfies_path(X[i], leaf, splits, p))
            b = bool(ex.row_satisfies_path(splits, X, p, leaf, i))
            cx.check(a == (i in want), 'row routing',
                     'row %s leaf %d: %s' % (X[i], l, a), splits=th,
                     assign=assign)
            cx.check(b == (i in want), 'row routing of the experiment',
                     'row %s leaf %d: %s' % (X[i], l, b), splits=th)
            reached[i] += a
            cx.count('routed rows')
    cx.check((reached == 1).all(), 'row reaches several leaves or none')
    if d >= 2:
        cx.nontrivial((d, assign, th))
    cx.sample(dict(depth=d, splits=th, assignment=assign))


def identity(cx):
    import col_gen_estimator as cg
    d = cx.int(1, 4)

    def mk(leaf, target, cost, pairs):
        p = cg.Path()
        p.leaf_id, p.target, p.cost = leaf, target, cost
        p.node_ids = [a for a, _ in pairs]
        p.splits = [b for _, b in pairs]
        p.id, p.initial = cx.int(-1, 5), cx.flip(.5)
        return p

    leaf = cx.int(0, 2 ** d - 1)
    pairs = [(j, cx.int(0, 3)) for j, _ in oracle.turns(d, leaf)]
    a = [leaf, cx.int(0, 2), cx.int(0, 5), pairs]
    b = [leaf, a[1], a[2], list(pairs)]
    for what in range(cx.pick([0, 0, 1, 1, 2])):
        w = cx.int(0, 5)
        if w == 0:
            b[0] = cx.int(0, 2 ** d - 1)
        elif w == 1:
            b[1] = cx.int(0, 2)
        elif w == 2:
            b[2] = cx.pick([a[2] + 1, a[2] + .5, a[2] - 1])
        elif w == 3:
            i = cx.int(0, d - 1)
            b[3][i] = (b[3][i][0], cx.int(0, 3))
        elif w == 4:                 # same splits, other nodes
            s = [q for _, q in b[3]]
            cx.rng.shuffle(s)
            b[3] = [(j, int(v)) for (j, _), v in zip(b[3], s)]
        else:                        # sibling leaf: same nodes, other turn
            b[0] = leaf ^ 1
    if cx.flip(.6):
        o = cx.rng.permutation(len(b[3]))
        b[3] = [b[3][i] for i in o]
    if cx.flip(.1):
        b[3] = b[3] + [(100, 1)]
    if cx.flip(.2):
        b[2] = np.int64(b[2]) if b[2] == int(b[2]) else b[2]
    p, q = mk(*a), mk(*b)
    want = (a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and
            set(a[3]) == set(b[3]))
    cx.count('same paths' if want else 'different paths')
    for u, v in ((p, q), (q, p)):
        cx.check(bool(u.is_same_as(v)) == want, 'path identity',
                 '%s and %s: %s' % (a, b, not want))
    cx.check(p.is_same_as(p), 'path differs from itself')
