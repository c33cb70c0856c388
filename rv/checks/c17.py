"""C17: proposals of the random path heuristic."""
import numpy as np

from rv import gen, oracle, probe
from rv.checks.c16 import changed_duals, random_duals, virtual_row

RULE = """Heuristic objects driven through sequences of dual vectors with new
virtual cut rows in between; every proposal is checked for structure, distinct
splits, best target and exact count, and true reduced cost; the proposals of a
call for distinctness; its reduced cost function is compared with the formula
for random paths; and when enumeration finds an improving path, repeated calls
must find one. Non-trivial: at least one proposal; distinct by (problem size,
duals)."""
ASSUMPTIONS = ["60 calls of at least 100 random tries each find an improving "
               "path among at most 512"]
LIMITS = {'quick': dict(cases=5250, budget=100),
          'thorough': dict(cases=131250, budget=600)}
MINIMUM = {'big problems': 20,
           'calls': 1000, 'proposals': 3000, 'improvable': 500,
           'not improvable': 100, 'calls with cuts': 300,
           'costs compared': 2000, 'proposals with merged rows': 200}


def setup():
    probe.install()


def case(cx):
    gen.seed_global(cx)
    P = gen.tree_problem(cx, nmax=20, max_cands=cx.pick([3, 6]),
                         depth=gen.deep(cx, .1), rich=.08, big=.03)
    cx.count('depth 4 problems', P.depth == 4)
    cx.count('deeper problems', P.depth > 4)
    O = gen.build(P)
    est = gen.tree_estimator(P, O)
    h = est.subproblems[0][0]
    removed = np.array([O.data_rows is not None and
                        bool(O.data_rows[i].removed_from_master)
                        for i in range(len(P.y))])
    merged = O.data_rows is not None and any(
        r.removed_from_sp for r in O.data_rows)
    cuts = []
    for step in range(cx.int(1, 4)):
        new = []
        if cx.flip(.4):
            new = [virtual_row(cx, P)
                   for _ in range(cx.pick([1, 2, 3, 1, 2, 3, 7, 12]))]
        cuts = cuts + new
        if cuts:
            cx.count('calls with cuts')
        e = random_duals(cx, P, removed, cuts)
        if step and cx.flip(.4):
            cx.count('partly changed duals')
            e = changed_duals(cx, P, d, e, removed, cuts)
        d = e + (new,)
        cx.call('update_subproblem', h.update_subproblem, P.X, P.y, d)
        out = cx.call('generate_columns', h.generate_columns, P.X, P.y, d,
                      '')
        judge(cx, P, out, d, cuts)
        cx.count('calls')
        if merged:
            cx.count('proposals with merged rows', len(out))
        costs(cx, P, O, h, d, cuts)
        if step == 0 or cx.flip(.3):
            complete(cx, P, h, d, cuts, out)
        if out:
            cx.nontrivial((P.size(), d[0], step))
        cx.sample(dict(size=P.size(), proposals=len(out), cuts=len(cuts)))


def judge(cx, P, out, d, cuts):
    seen = set()
    scale = 1 + max(abs(v) for v in d[0]) + len(P.y)
    for p in out:
        cx.count('proposals')
        oracle.check_path(cx, P, p, 'proposed')
        cx.check(len(set(p.splits)) == len(p.splits),
                 'split used twice in a path', str(p.splits))
        a = oracle.assign_of(p)
        cnt = oracle.class_counts(P, int(p.leaf_id), a)
        cx.check(cnt[p.target] == cnt.max(), 'target is not the best',
                 'target %s counts %s' % (p.target, cnt.tolist()), path=a,
                 problem=P)
        cx.check(abs(p.cost - cnt[p.target]) < 1e-9, 'count of a proposal',
                 '%s instead of %s' % (p.cost, cnt[p.target]), problem=P)
        v = oracle.path_reduced_cost(P, p, d, cuts)
        cx.check(v > -1e-9 * scale, 'proposal does not improve',
                 '%s %s: %.9g' % (p.leaf_id, a, v), problem=P, duals=d)
        key = (int(p.leaf_id), int(p.target), tuple(sorted(a.items())))
        cx.check(key not in seen, 'proposed twice in one call', str(key))
        seen.add(key)


def costs(cx, P, O, h, d, cuts):
    """The reduced cost function on arbitrary paths."""
    for _ in range(3):
        leaf = cx.int(0, P.n_leaves - 1)
        nodes = [j for j, _ in oracle.turns(P.depth, leaf)]
        cx.rng.shuffle(nodes)
        a = {int(j): cx.pick(P.cands[j]) for j in nodes}
        follow = oracle.route(P, leaf, a)
        t = cx.int(0, P.k - 1)
        c = int((P.y[follow] == t).sum())
        p = gen.make_path(leaf, list(a), list(a.values()), t, c)
        got = cx.call('get_reduced_cost', h.get_reduced_cost, P.X, P.y, d, p,
                      follow.tolist())
        want = c + oracle.path_value(P, leaf, a, d, cuts)
        cx.count('costs compared')
        cx.check(abs(got - want) <= 1e-7 * (1 + abs(want) + len(P.y)),
                 'reduced cost of a path', '%.9g instead of %.9g' % (
                     got, want), path=a, leaf=leaf, problem=P, duals=d)


def complete(cx, P, h, d, cuts, out):
    # Enough random paths (100 per call) to draw each path several times.
    paths = P.n_leaves * max(
        int(np.prod([len(P.cands[j]) for j, _ in oracle.turns(P.depth, l)]))
        for l in range(P.n_leaves))
    rounds = 60 + paths * 30 // 100
    if rounds > 500:
        cx.count('too many paths for completeness')
        return
    best = -np.inf
    for leaf in range(P.n_leaves):
        for a in oracle.assignments(P, leaf):
            if len(set(a.values())) < len(a):
                continue
            v = int(oracle.class_counts(P, leaf, a).max()) + \
                oracle.path_value(P, leaf, a, d, cuts)
            best = max(best, v)
    if best <= 1e-6:
        cx.count('not improvable')
        return
    if best < 1e-5:
        return
    cx.count('improvable')
    d = d[:4] + ([],)
    for _ in range(rounds):
        if out:
            break
        cx.call('update_subproblem', h.update_subproblem, P.X, P.y, d)
        out = cx.call('generate_columns', h.generate_columns, P.X, P.y, d,
                      '')
        judge(cx, P, out, d, cuts)
    cx.check(bool(out), 'improving path never proposed',
             'best reduced cost %.6g' % best, problem=P, duals=d)
