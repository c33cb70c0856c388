"""Independent oracles over plain problem descriptions. Nothing in this file
uses the code under test."""
import itertools

import numpy as np
from scipy.optimize import linprog, milp, LinearConstraint, Bounds
from scipy.sparse import coo_matrix, vstack

from .core import Inconclusive


# ------------------------------------------------------------------- solvers
# Set when a violation is being confirmed: several solvers have to agree.
STATE = {'strict': False, 'used': False}


def lp(c, A=(), lo=(), hi=(), lb=0., ub=np.inf, maximize=False, integer=False):
    """min/max c x, lo <= A x <= hi, lb <= x <= ub; returns the optimal value
    or None when infeasible. A is a list of {column: coefficient}."""
    c = np.asarray(c, float)
    n = len(c)
    if n == 0:
        return 0.
    s = -1. if maximize else 1.
    cons = []
    if len(A):
        ri, ci, v = [], [], []
        for i, row in enumerate(A):
            for j, a in row.items():
                ri.append(i), ci.append(j), v.append(float(a))
        M = coo_matrix((v, (ri, ci)), shape=(len(A), n)).tocsr()
        cons = [LinearConstraint(M, np.asarray(lo, float),
                                 np.asarray(hi, float))]
    res = milp(s * c, constraints=cons, bounds=Bounds(lb, ub),
               integrality=np.ones(n) if integer else np.zeros(n),
               options=dict(mip_rel_gap=0.))
    if res.status not in (0, 2):
        res = milp(s * c, constraints=cons, bounds=Bounds(lb, ub),
                   integrality=np.ones(n) if integer else np.zeros(n),
                   options=dict(mip_rel_gap=0., presolve=False))
    if res.status == 2:
        return None
    if res.status != 0:
        raise Inconclusive('oracle solver: ' + str(res.message))
    STATE['used'] = True
    if STATE['strict'] and not integer:
        confirm(s * c, cons, lb, ub, res.fun)
    return s * res.fun


def confirm(c, cons, lb, ub, value):
    """Solves the minimization LP again by other methods."""
    M, v = [], []
    for k in cons:
        for A, b in ((k.A, k.ub), (-k.A, -k.lb)):
            f = np.isfinite(b)
            if f.any():
                M.append(A[f]), v.append(b[f])
    n = len(c)
    bounds = list(zip(np.broadcast_to(lb, n), np.broadcast_to(ub, n)))
    for method, presolve in (('highs-ds', False), ('highs-ds', True),
                             ('highs-ipm', True)):
        res = linprog(c, vstack(M) if M else None,
                      np.concatenate(v) if M else None, bounds=bounds,
                      method=method, options=dict(presolve=presolve))
        if res.status == 0 and \
                abs(res.fun - value) > 1e-7 * (1 + abs(value)):
            raise Inconclusive('oracle solvers disagree: %r %r' % (
                res.fun, value))


# ------------------------------------------------------------- Boolean rules
def covers(X, clause):
    """Which rows satisfy the clause."""
    if len(clause) == 0:
        return np.ones(len(X), bool)
    return (np.asarray(X)[:, list(clause)] != 0).all(axis=1)


def all_clauses(m, max_len):
    for s in range(0, min(m, max_len) + 1):
        yield from itertools.combinations(range(m), s)


def reduced_cost(X, y, clause, lam, mu):
    c = covers(X, clause)
    full = np.zeros(len(y))
    full[np.asarray(y) == 1] = mu
    return lam * (1 + len(clause)) - full[c].sum() + \
        float((c & (np.asarray(y) == 0)).sum())


def rule_ip(X, y, clauses, C, p):
    """Lowest cost of a selection of clauses within the budget. The solver
    only proposes selections: their costs are computed from the rows."""
    cl = list(clauses)
    cov = [covers(X, k) for k in cl]
    pos = np.flatnonzero(np.asarray(y) == 1)
    c = np.array([float(p)] * len(pos) + [
        float((v & (np.asarray(y) == 0)).sum()) for v in cov])
    A = np.zeros((len(pos) + 1, len(c)))
    A[np.arange(len(pos)), np.arange(len(pos))] = 1
    for k, v in enumerate(cov):
        A[:-1, len(pos) + k] = v[pos]
        A[-1, len(pos) + k] = 1 + len(cl[k])
    con = LinearConstraint(A, [1.] * len(pos) + [-np.inf],
                           [np.inf] * len(pos) + [float(C)])
    best, arg = rule_cost(X, y, [], p), []
    for presolve in (True, False):
        res = milp(c, constraints=[con], bounds=Bounds(0, 1),
                   integrality=np.ones(len(c)),
                   options=dict(mip_rel_gap=0., presolve=presolve))
        if res.x is None:
            continue
        pick = [k for k, w in zip(cl, res.x[len(pos):]) if w > .5]
        v = rule_cost(X, y, pick, p)
        if v < best and sum(1 + len(k) for k in pick) <= C:
            best, arg = v, pick
    return best, arg


def rule_lp(X, y, clauses, C, p):
    """Optimum of the rule master LP over the given clauses."""
    y = np.asarray(y)
    pos = np.flatnonzero(y == 1)
    cl = list(clauses)
    cov = [covers(X, k) for k in cl]
    c = [float(p)] * len(pos) + [float((v & (y == 0)).sum()) for v in cov]
    A, lo, hi = [], [], []
    for i, r in enumerate(pos):
        row = {i: 1.}
        for k, v in enumerate(cov):
            if v[r]:
                row[len(pos) + k] = 1.
        A.append(row), lo.append(1.), hi.append(np.inf)
    A.append({len(pos) + k: 1. + len(q) for k, q in enumerate(cl)})
    lo.append(-np.inf), hi.append(float(C))
    return lp(c, A, lo, hi)


def rule_cost(X, y, clauses, p):
    y = np.asarray(y)
    hit = np.zeros(len(y), bool)
    fp = 0
    for k in clauses:
        v = covers(X, k)
        hit |= v
        fp += int((v & (y == 0)).sum())
    return float(p) * int((~hit & (y == 1)).sum()) + fp


def dnf(X, clauses):
    hit = np.zeros(len(X), bool)
    for k in clauses:
        hit |= covers(X, k)
    return hit


# ------------------------------------------------------------ decision trees
def turns(depth, leaf):
    """[(node, goes left)] from the root to the leaf: the bits of the leaf
    number, most significant first, are the right turns."""
    res, node = [], 0
    for b in range(depth - 1, -1, -1):
        right = (leaf >> b) & 1
        res.append((node, not right))
        node = 2 * node + 1 + right
    return res


def goes_left(X, split):
    return np.asarray(X)[:, split[0]] <= split[1]


def route(P, leaf, assign, X=None):
    """Rows that reach the leaf under the assignment node -> split id."""
    X = P.X if X is None else X
    ok = np.ones(len(X), bool)
    for node, left in turns(P.depth, leaf):
        g = goes_left(X, P.splits[assign[node]])
        ok &= g if left else ~g
    return ok


def class_counts(P, leaf, assign):
    return np.bincount(P.y[route(P, leaf, assign)], minlength=P.k)


def assign_of(path):
    return {int(j): int(s) for j, s in zip(path.node_ids, path.splits)}


def true_count(P, path):
    a = assign_of(path)
    return int((P.y[route(P, path.leaf_id, a)] == path.target).sum())


def check_path(cx, P, path, what):
    """Structural validity of a generated path."""
    nodes = [int(j) for j in path.node_ids]
    cx.check(0 <= path.leaf_id < P.n_leaves, what + ': leaf of a path',
             str(path.leaf_id))
    anc = {j for j, _ in turns(P.depth, int(path.leaf_id))}
    cx.check(len(nodes) == len(set(nodes)) and set(nodes) == anc,
             what + ': nodes of a path',
             'leaf %s visits %s instead of %s' % (path.leaf_id, nodes, anc))
    cx.check(len(path.splits) == len(nodes), what + ': splits of a path',
             'nodes %s splits %s' % (nodes, path.splits))
    for j, s in zip(nodes, path.splits):
        cx.check(s in P.cands[j], what + ': split is not a candidate',
                 'node %s split %s candidates %s' % (j, s, P.cands[j]))
    cx.check(path.target in range(P.k), what + ': target of a path',
             '%r' % (path.target,))


def best_tree(P, mask=None, node=0, level=0):
    """Optimal number of correct rows over all trees of the candidates."""
    if mask is None:
        mask = np.ones(len(P.y), bool)
        P._memo = {}
    if level == P.depth:
        return int(np.bincount(P.y[mask], minlength=1).max()) \
            if mask.any() else 0
    key = (node, mask.tobytes())
    if key in P._memo:
        return P._memo[key]
    best = -1
    for s in P.cands[node]:
        g = goes_left(P.X, P.splits[s])
        v = best_tree(P, mask & g, 2 * node + 1, level + 1) + \
            best_tree(P, mask & ~g, 2 * node + 2, level + 1)
        best = max(best, v)
    P._memo[key] = best
    return best


def best_of_paths(P, paths):
    """Best consistent complete tree assembled from the paths (by the costs
    they carry); None if there is none."""
    items = [(int(p.leaf_id), assign_of(p), p.cost) for p in paths]

    def rec(node, level, first, cand):
        if level == P.depth:
            v = [c for lf, _, c in cand if lf == first]
            return max(v) if v else None
        half = 2 ** (P.depth - level - 1)
        best = None
        for s in {a[node] for lf, a, c in cand}:
            sub = [q for q in cand if q[1][node] == s]
            l = rec(2 * node + 1, level + 1, first,
                    [q for q in sub if q[0] < first + half])
            if l is None:
                continue
            r = rec(2 * node + 2, level + 1, first + half,
                    [q for q in sub if q[0] >= first + half])
            if r is None:
                continue
            if best is None or l + r > best:
                best = l + r
        return best
    return rec(0, 0, 0, items)


def assignments(P, leaf):
    anc = [j for j, _ in turns(P.depth, leaf)]
    for combo in itertools.product(*[P.cands[j] for j in anc]):
        yield dict(zip(anc, combo))


def cut_follows(P, cut_row, leaf, assign):
    """A virtual row is described by its turn (left?) at every split."""
    return all(bool(cut_row[assign[j]]) == left
               for j, left in turns(P.depth, leaf))


def path_value(P, leaf, assign, duals, cut_rows):
    """Everything of the reduced cost but the count."""
    leaf_d, row_d, ns_d, cut_d = duals[:4]
    v = -float(leaf_d[leaf])
    v -= float(np.asarray(row_d, float)[route(P, leaf, assign)].sum())
    for j, s in assign.items():
        v -= float(ns_d[leaf][j][s])
    for c, cr in enumerate(cut_rows):
        if cut_follows(P, cr, leaf, assign):
            v -= float(cut_d[c])
    return v


def price_leaf(P, leaf, duals, cut_rows, target=None):
    """Largest reduced cost of all paths to the leaf."""
    best, arg = -np.inf, None
    for a in assignments(P, leaf):
        cnt = class_counts(P, leaf, a)
        c = int(cnt.max() if target is None else cnt[target])
        v = c + path_value(P, leaf, a, duals, cut_rows)
        if v > best:
            best, arg = v, a
    return best, arg


def path_reduced_cost(P, path, duals, cut_rows):
    a = assign_of(path)
    return true_count(P, path) + path_value(
        P, int(path.leaf_id), a, duals, cut_rows)


def tree_lp(P, paths, rows=(), cut_rows=(), integer=False, row_ok=None,
            costs=None):
    """Optimum of the tree master over the given paths with the given row
    (at most one) and cut (exactly one) constraints."""
    items = [(int(p.leaf_id), assign_of(p),
              float(p.cost if costs is None else costs[i]))
             for i, p in enumerate(paths)]
    n = len(items)
    rho = {}
    for j, c in enumerate(P.cands):
        for s in c:
            rho[j, s] = n + len(rho)
    A, lo, hi = [], [], []
    for leaf in range(P.n_leaves):
        A.append({i: 1. for i, q in enumerate(items) if q[0] == leaf})
        lo.append(1.), hi.append(1.)
        for j, _ in turns(P.depth, leaf):
            for s in P.cands[j]:
                row = {i: 1. for i, q in enumerate(items)
                       if q[0] == leaf and q[1][j] == s}
                row[rho[j, s]] = -1.
                A.append(row), lo.append(0.), hi.append(0.)
    follow = [route(P, q[0], q[1]) for q in items]
    for r in rows:
        A.append({i: 1. for i in range(n) if follow[i][r]})
        lo.append(-np.inf), hi.append(1.)
    for cr in cut_rows:
        A.append({i: 1. for i, q in enumerate(items)
                  if cut_follows(P, cr, q[0], q[1])})
        lo.append(1.), hi.append(1.)
    c = [q[2] for q in items] + [0.] * len(rho)
    keep = [k for k, row in enumerate(A)]
    return lp(c, [A[k] for k in keep], [lo[k] for k in keep],
              [hi[k] for k in keep], maximize=True, integer=integer)
