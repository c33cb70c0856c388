"""Workload generators: plain descriptions of learning problems, from which
fresh objects of the code under test are built."""
import contextlib
import io
import random

import numpy as np

from . import oracle


# ------------------------------------------------------------ Boolean rules
class RuleProblem:
    """0/1 data with labels 0/1, complexity budget and miss weight."""

    def __repr__(self):
        return 'X=%s y=%s C=%s p=%s' % (
            self.X.astype(int).tolist(), self.y.tolist(), self.C, self.p)


def rule_problem(cx, mmax=6, nmax=24, ps=(1, 2, .5, 10, 3.7, 1.25),
                 wide=0., wmin=30, wmax=70, longc=0., multi=0., tall=0., tmax=100,
                 big=0.):
    """wide: share of problems with wmin to wmax features. longc: share of
    problems planted with a clause of at least five features. multi: share
    planted with many clauses. tall: share with hundreds of rows. big: share
    with more than 64 or 256 features or more than 256 rows."""
    P = RuleProblem()
    r = cx.rng
    m = cx.int(1, mmax)
    n = cx.int(2, nmax)
    P.big = cx.pick(['rows', 'cols', 'cols', 'cols64', 'cols64']) \
        if big and cx.flip(big) else None
    P.wide = bool(wide) and cx.flip(wide)
    if P.big:
        cx.count('big problems')
        P.wide = P.big != 'rows'
        m, n = {'rows': (cx.int(2, 4), cx.int(257, 400)),
                'cols': (cx.int(257, 300), n),
                'cols64': (cx.int(65, 72), n)}[P.big]
    elif P.wide:
        m = cx.int(wmin, wmax)
    elif longc and cx.flip(longc):
        return long_problem(cx, P, ps)
    elif multi and cx.flip(multi):
        return multi_problem(cx, P, ps)
    elif tall and cx.flip(tall):
        m, n = cx.int(2, 4), cx.int(60, tmax)
    style = cx.pick(['noise', 'dnf', 'noisy dnf', 'few rows', 'extreme'])
    X = (r.rand(n, m) < r.uniform(.25, .85)).astype(int)
    if style == 'few rows':             # many duplicates, also contradictory
        base = (r.rand(cx.int(1, 4), m) < .6).astype(int)
        X = base[r.randint(0, len(base), n)]
    elif style == 'extreme':
        for j in range(m):
            if cx.flip(.4):
                X[:, j] = cx.int(0, 1)
    if style in ('dnf', 'noisy dnf'):
        y = np.zeros(n, int)
        for _ in range(cx.int(1, 3)):
            cl = r.choice(m, cx.int(1, min(m, 3)), replace=False)
            y |= X[:, cl].all(axis=1).astype(int)
        if style == 'noisy dnf':
            f = r.rand(n) < .15
            y[f] = 1 - y[f]
    else:
        y = (r.rand(n) < r.uniform(.15, .85)).astype(int)
    if len(set(y.tolist())) < 2:
        y[0] = 1 - y[0]
        if n > 1 and len(set(y.tolist())) < 2:
            y[1] = 1 - y[1]
    P.X, P.y = X, y
    P.C = cx.pick([1, 2, 3, 4, 5, 6, 8, 10, 12])
    P.p = cx.pick(list(ps))
    if cx.flip(.06):                    # unusual weights
        P.p = cx.pick([0, .01, 60, 500.])
    if cx.flip(.06):                    # no budget, more than enough budget
        P.C = cx.pick([0, 40, 200])
    if P.big and P.wide:                # all clauses can be enumerated
        P.C = 1 if P.big == 'cols' else cx.int(1, 2)
    P.style = style
    return P


def multi_problem(cx, P, ps):
    """Every positive row satisfies one of several clauses."""
    r = cx.rng
    c = cx.int(3, 8)
    m = cx.int(max(4, c), 10)
    cl = [r.choice(m, cx.pick([1, 2, 2]), replace=False) for _ in range(c)]
    npos, nneg = cx.int(2 * c, 3 * c), cx.int(4, 12)
    Xp = (r.rand(npos, m) < .2).astype(int)
    for i in range(npos):
        Xp[i, cl[i % c]] = 1
    Xn = (r.rand(nneg, m) < .5).astype(int)
    for row in Xn:
        for k in cl:
            if row[k].all():
                row[k[0]] = 0
    y = np.array([1] * npos + [0] * nneg)
    o = r.permutation(len(y))
    P.X, P.y = np.vstack([Xp, Xn])[o], y[o]
    P.C = cx.pick([3 * c, 3 * c, 2 * c, 30])
    P.p = cx.pick([p for p in ps if p >= 1] or list(ps))
    P.style = 'multi'
    return P


def long_problem(cx, P, ps):
    """Positive rows have most features, every negative row misses one of a
    few features, so that long clauses are needed."""
    r = cx.rng
    P.wide = False
    m = cx.int(5, 9)
    k = cx.int(5, m)
    npos, nneg = cx.int(3, 9), cx.int(k, 2 * k)
    need = r.permutation(m)[:k]
    Xp = (r.rand(npos, m) < .7).astype(int)
    Xp[:, need] = 1
    Xn = (r.rand(nneg, m) < .9).astype(int)
    Xn[:, need] = 1
    for i in range(nneg):
        Xn[i, need[i % k]] = 0
    y = np.array([1] * npos + [0] * nneg)
    o = r.permutation(len(y))
    P.X, P.y = np.vstack([Xp, Xn])[o], y[o]
    P.C = cx.pick([k + 1, k + 1, k + 2, 12, 15])
    P.p = cx.pick(list(ps))
    P.style = 'long'
    return P


def rule_estimator(P, heuristic=False, **kw):
    import col_gen_estimator as cg
    cls = cg.BooleanDecisionRuleClassifierWithHeuristic if heuristic \
        else cg.BooleanDecisionRuleClassifier
    kw.setdefault('C', P.C)
    kw.setdefault('p', P.p)
    return cls(**kw)


# ------------------------------------------------------------ decision trees
class TreeProblem:
    """X, y (0..k-1), depth, splits [(feature, threshold)], cands (per node),
    paths [(leaf, nodes, splits, target, cost)], row mode."""

    def __repr__(self):
        return ('depth=%d X=%s y=%s splits=%s cands=%s paths=%s rows=%s' % (
            self.depth, self.X.tolist(), self.y.tolist(), self.splits,
            self.cands, self.paths, self.rows))

    @property
    def n_nodes(self):
        return 2 ** self.depth - 1

    @property
    def n_leaves(self):
        return 2 ** self.depth

    def size(self):
        return (self.depth, len(self.y), len(self.splits), self.k,
                tuple(len(c) for c in self.cands))


def deep(cx, share, deeper=True):
    """Depth 4, sometimes 5 to 7, in the given share of problems. deeper:
    single pricing problems instead of whole trainings."""
    if not cx.flip(share):
        return None
    return cx.pick([4, 4, 4, 4, 5, 6]) if deeper \
        else cx.pick([4, 4, 4, 4, 4, 5, 5, 6, 7, 8])


def tree_problem(cx, depth=None, nmax=30, max_splits=8, max_cands=None,
                 k=None, duplicates=None, mmax=5, plain_paths=False,
                 bad_targets=True, many=False, nmin=3, trees=None, rich=0.,
                 big=0.):
    """many: as many splits and candidates as allowed. trees: number of
    initial trees. Depth 4 is limited to two candidates per node. rich: share
    of problems of depth 1 or 2 with many features, splits, candidates and
    classes. big: share of such problems with more than 64 or 256 rows,
    features, splits, initial paths or many classes."""
    P = TreeProblem()
    r = cx.rng
    P.rich = bool(rich) and (depth or 1) <= 2 and cx.flip(rich)
    P.depth = depth or cx.pick([1, 2] if P.rich else [1, 2, 2, 2, 3])
    n, m = cx.int(nmin, nmax), cx.int(1, mmax)
    if P.rich:
        m = cx.int(5, 10)
        max_splits, max_cands, many = 20, 14, cx.flip(.7)
        k = k or cx.pick([2, 4, 7])
        cx.count('rich problems')
    style = cx.pick(['binary', 'int', 'float', 'half'])
    P.big = cx.pick(['rows', 'rows', 'cols', 'splits', 'splits', 'paths',
                     'paths' if k else 'classes']) \
        if big and (depth or 1) <= 2 and cx.flip(big) else None
    th_max = 8 if P.rich else 4
    if P.big:
        cx.count('big problems')
        P.depth = depth or cx.pick([1, 2, 2])
        max_cands = min(max_cands or 4, 4)
        if P.big == 'rows':
            n = cx.pick([cx.int(66, 130), cx.int(257, 330)])
        elif P.big == 'cols':
            m = cx.pick([cx.int(66, 90), cx.int(257, 290)])
            max_splits = 12
        elif P.big == 'splits':
            n, m, style = cx.int(14, 22), cx.int(16, 24), 'float'
            max_splits, many, th_max = cx.pick([80, 300]), True, n
            duplicates = False
        elif P.big == 'classes':
            k = cx.pick([12, 20, 40])
            n = cx.int(k, 60)
        else:
            P.depth = depth or 2
            max_splits, max_cands, many = 12, 6, True
            trees = cx.pick([40, 120])
    P.style = style

    def draw(n):
        if style == 'binary':
            return r.randint(0, 2, (n, m)).astype(float)
        if style == 'int':
            return r.randint(-3, 4, (n, m)).astype(float)
        if style == 'half':
            return r.randint(-4, 5, (n, m)) / 2.
        return np.round(r.randn(n, m) * cx.pick([1, 1, 100]), 2)
    X = draw(n)
    if duplicates if duplicates is not None else cx.flip(.4):
        base = draw(max(2, n // 3))
        X = base[r.randint(0, len(base), n)]
    if cx.flip(.12):                    # huge, tiny and neighbouring values
        P.style += ' scaled'
        sc = cx.pick([2. ** -40, 2. ** 34, 2. ** 60, 1e12, 'ulp'])
        X = 1. + np.round(X) * 2. ** -52 if sc == 'ulp' else X * sc
    P.k = k or cx.pick([2, 2, 2, 3, 4])
    P.k = min(P.k, n)
    # Labels: random, or planted by a random tree with noise.
    y = r.randint(0, P.k, n)
    if cx.flip(.4):
        f, f2 = r.randint(m), r.randint(m)
        y = ((X[:, f] > np.median(X[:, f])).astype(int) * 2 +
             (X[:, f2] > np.median(X[:, f2])).astype(int)) % P.k
        fl = r.rand(n) < .15
        y[fl] = r.randint(0, P.k, fl.sum())
    y[r.permutation(n)[:P.k]] = np.arange(P.k)
    P.X, P.y = X, y.astype(int)
    # Candidate splits, thresholds between and (ties) at values.
    cand = []
    for f in range(m):
        v = np.unique(X[:, f])
        th = [(a + b) / 2 for a, b in zip(v[:-1], v[1:])]
        if cx.flip(.3):
            th += v.tolist()
        if cx.flip(.15):
            th += [float(v[0] - 1), float(v[-1] + 1)]   # everything one way
        r.shuffle(th)
        cand += [(f, float(t)) for t in dict.fromkeys(th[:th_max])]
    cand = cand or [(0, 0.5)]
    r.shuffle(cand)
    P.splits = [(int(f), float(t))
                for f, t in cand[:max_splits if many else
                                  cx.int(1, max_splits)]]
    mc = max_cands or (3 if P.depth == 3 else 8)
    if P.depth > 3:
        mc = min(mc, 2)
    P.cands = []
    for i in range(P.n_nodes):
        q = min(mc, len(P.splits))
        q = q if many else cx.int(1, q)
        P.cands.append([int(s) for s in
                        r.choice(len(P.splits), q, replace=False)])
    P.paths = []
    keep = set()
    for t in range(trees or (1 if plain_paths else cx.int(1, 3))):
        pick = [cx.pick(c) for c in P.cands]
        for leaf in range(P.n_leaves):
            if t > 0 and cx.flip(.2):
                continue                # also incomplete further trees
            P.add_path(cx, leaf, pick, keep, bad_targets)
    r.shuffle(P.paths) if cx.flip(.5) else None
    P.rows = cx.pick([None, 'plain', 'aggressive'])
    P.targets_array = cx.flip(.5)
    return P


def _add_path(self, cx, leaf, pick, keep, bad_targets):
    nodes = [j for j, _ in oracle.turns(self.depth, leaf)]
    if cx.flip(.5):
        nodes = nodes[::-1]
    elif cx.flip(.3):
        cx.rng.shuffle(nodes)
    sp = [pick[j] for j in nodes]
    cnt = oracle.class_counts(self, leaf, dict(zip(nodes, sp)))
    best = int(np.argmax(cnt))
    if bad_targets and cx.flip(.2):
        best = cx.int(0, self.k - 1)
    key = (leaf, tuple(sorted(zip(nodes, sp))), best)
    if key in keep:
        return
    keep.add(key)
    self.paths.append((leaf, [int(j) for j in nodes], [int(s) for s in sp],
                       best, int(cnt[best])))


TreeProblem.add_path = _add_path


class Objects:
    pass


def build(P, X=None):
    """Fresh definition objects of the code under test."""
    import col_gen_estimator as cg
    O = Objects()
    X = P.X if X is None else X
    O.splits = []
    for i, (f, t) in enumerate(P.splits):
        s = cg.Split()
        s.id, s.feature, s.threshold = i, f, t
        left = X[:, f] <= t
        s.left_rows = set(np.flatnonzero(left).tolist())
        s.right_rows = set(np.flatnonzero(~left).tolist())
        O.splits.append(s)
    O.nodes = []
    for i, c in enumerate(P.cands):
        nd = cg.Node()
        nd.id = i
        nd.candidate_splits = list(c)
        O.nodes.append(nd)
    O.leaves = []
    for i in range(P.n_leaves):
        lf = cg.Leaf()
        lf.create_leaf(i, P.depth)
        O.leaves.append(lf)
    O.paths = [make_path(*p) for p in P.paths]
    O.targets = np.arange(P.k) if P.targets_array else list(range(P.k))
    O.data_rows = None
    if P.rows is not None:
        import examples.dtree_experiment as ex
        with quiet():
            O.data_rows = ex.preprocess(
                O.nodes, O.splits, X, P.y, P.depth,
                aggressive=P.rows == 'aggressive')
    return O


def make_path(leaf, nodes, splits, target, cost):
    import col_gen_estimator as cg
    p = cg.Path()
    p.leaf_id, p.node_ids, p.splits = leaf, list(nodes), list(splits)
    p.target, p.cost = target, cost
    return p


def tree_options(cx, cuts=True, old=True):
    o = dict(use_old_sp=cx.flip(.15) and old)
    if cuts:
        o.update(num_master_cuts_round=cx.int(0, 5),
                 master_beta_constraints_as_cuts=cx.flip(.5),
                 master_generate_cuts=cx.flip(.5))
    return o


def tree_estimator(P, O, **kw):
    import col_gen_estimator as cg
    return cg.DTreeClassifier(
        O.paths, O.leaves, O.nodes, O.splits, tree_depth=P.depth,
        targets=O.targets, data_rows=O.data_rows, **kw)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def unseen(cx, P, n=12):
    """Rows for prediction: training rows, ties with thresholds, extremes."""
    r = cx.rng
    m = P.X.shape[1]
    rows = [P.X[r.randint(len(P.X))] for _ in range(3)]
    for _ in range(n):
        row = np.round(r.randn(m) * cx.pick([1, 5, 1e6]), 3)
        for f, t in P.splits:
            if cx.flip(.3):
                row[f] = cx.pick([t, np.nextafter(t, np.inf),
                                  np.nextafter(t, -np.inf)])
        rows.append(row)
    return np.array(rows, dtype=float)


def seed_global(cx):
    s = cx.int(0, 10 ** 6)
    random.seed(s)
    np.random.seed(s)
