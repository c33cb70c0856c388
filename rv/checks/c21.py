"""C21: row preprocessing against an independent reachability oracle."""
import numpy as np

from rv import clock, find, gen, oracle, probe

RULE = """The experiment's row preprocessing (plain, merging, merging stopped
by time limits that expire at every possible reading of a virtual clock) and
the master's own preprocessing (both modes) on random problems with many
duplicate rows and restricted candidate splits; reachability, removals,
weights and weighted counts of random paths are compared with an independent
routing oracle. Non-trivial: a row was removed; distinct by (problem, removal
pattern)."""
ASSUMPTIONS = ["rows are compared through the trees over the nodes' "
               "candidate splits"]
LIMITS = {'quick': dict(cases=16000, budget=100),
          'thorough': dict(cases=400000, budget=600)}
MINIMUM = {'big problems': 40,
           'preprocessed problems': 2000, 'rows removed from the master': 5000,
           'rows merged': 3000, 'stopped early': 200,
           'identical rows with other labels': 500,
           'path counts compared': 5000, 'reachable paths compared': 2000}


def setup():
    probe.install()


def reach(P, row):
    """(nodes, leaves) the row can reach, and its routing signature: rows with
    equal signatures are routed identically by every tree."""
    nodes, leaves, sig = set(), set(), {}
    todo = [0]
    while todo:
        j = todo.pop()
        nodes.add(j)
        left = [bool(row[P.splits[s][0]] <= P.splits[s][1])
                for s in P.cands[j]]
        sig[j] = tuple(left)
        for child in ([2 * j + 1] if any(left) else []) + \
                ([2 * j + 2] if not all(left) else []):
            if child >= P.n_nodes:
                leaves.add(child - P.n_nodes)
            else:
                todo.append(child)
    return nodes, leaves, tuple(sorted(sig.items()))


def judge(cx, P, rows, what, merging, weights=True):
    n = len(P.y)
    cx.check(len(rows) == n, what + ': number of rows', str(len(rows)))
    R = [reach(P, x) for x in P.X]
    kept_m, kept_s = {}, {}
    for r, d in enumerate(rows):
        if not d.removed_from_master:
            kept_m.setdefault(R[r][2], []).append(r)
        if not d.removed_from_sp:
            kept_s.setdefault((R[r][2], int(P.y[r])), []).append(r)
    seen = {}
    for r, d in enumerate(rows):
        nodes, leaves, sig = R[r]
        cx.check(set(d.reachable_nodes) == nodes, what + ': reachable nodes',
                 'row %d: %s instead of %s' % (r, d.reachable_nodes, nodes),
                 problem=P)
        cx.check(set(d.reachable_leaves) == leaves,
                 what + ': reachable leaves', 'row %d: %s instead of %s' % (
                     r, d.reachable_leaves, leaves), problem=P)
        lft = {s for s, (f, t) in enumerate(P.splits) if P.X[r, f] <= t}
        cx.check(set(d.left_splits) == lft and set(d.right_splits) ==
                 set(range(len(P.splits))) - lft, what + ': sides of a row',
                 'row %d: %s %s' % (r, d.left_splits, d.right_splits))
        if d.removed_from_master:
            cx.count('rows removed from the master')
            cx.check(len(leaves) <= 2 or bool(kept_m.get(sig)),
                     what + ': row removed from the master',
                     'row %d reaches %s and no identical row is kept' % (
                         r, leaves), problem=P)
        if d.removed_from_sp:
            cx.count('rows merged')
            cx.check(bool(kept_s.get((sig, int(P.y[r])))),
                     what + ': row removed from pricing',
                     'row %d (label %d) has no identical kept row' % (
                         r, P.y[r]), problem=P)
            cx.check(bool(d.removed_from_master),
                     what + ': row of the master missing in pricing',
                     'row %d' % r, problem=P)
        if sig in seen and seen[sig] != P.y[r]:
            cx.count('identical rows with other labels')
        seen[sig] = P.y[r]
    if not weights:
        return
    groups = {}
    for r in range(n):
        g = groups.setdefault((R[r][2], int(P.y[r])), [0, 0])
        g[0] += 1
        if not rows[r].removed_from_sp:
            g[1] += rows[r].weight
    for (sig, label), (a, b) in groups.items():
        cx.check(a == b, what + ': weight of identical rows',
                 '%d rows with label %d carry weight %s' % (a, label, b),
                 problem=P)
    w = np.array([0 if d.removed_from_sp else d.weight for d in rows])
    cx.check((np.bincount(P.y, weights=w, minlength=P.k) ==
              np.bincount(P.y, minlength=P.k)).all(),
             what + ': total weight per label', problem=P)
    for _ in range(4):
        leaf = cx.int(0, P.n_leaves - 1)
        a = {j: cx.pick(P.cands[j]) for j, _ in oracle.turns(P.depth, leaf)}
        f = oracle.route(P, leaf, a)
        t = cx.int(0, P.k - 1)
        cx.count('path counts compared')
        cx.check(w[f & (P.y == t)].sum() == (f & (P.y == t)).sum(),
                 what + ': weighted count of a path', 'leaf %d %s' % (
                     leaf, a), problem=P)
    if any(d.removed_from_master for d in rows):
        cx.nontrivial((repr(P), what, [
            (bool(d.removed_from_master), bool(d.removed_from_sp))
            for d in rows]))


def case(cx):
    import examples.dtree_experiment as ex
    gen.seed_global(cx)
    P = gen.tree_problem(cx, nmax=cx.pick([8, 16, 30]),
                         depth=cx.pick([1, 2, 2, 3]),
                         max_cands=cx.pick([1, 2, 3, 8]),
                         duplicates=cx.flip(.7),
                         trees=cx.pick([None, None, None, 8]), rich=.08, big=.03)
    P.rows = None
    if cx.flip(.5):
        # Identical rows with different labels.
        P.X = P.X[cx.rng.randint(0, len(P.X), len(P.X))]
    O = gen.build(P)
    cands = [list(c) for c in P.cands]
    mode = cx.pick(['plain', 'merge', 'stopped', 'stopped', 'master',
                    'master merge'])
    cx.count('preprocessed problems')
    with gen.quiet():
        if mode == 'plain':
            rows = cx.call('preprocess', ex.preprocess, O.nodes, O.splits,
                           P.X, P.y, P.depth)
        elif mode == 'merge':
            rows = cx.call('preprocess', ex.preprocess, O.nodes, O.splits,
                           P.X, P.y, P.depth, aggressive=True,
                           time_limit=cx.pick([150, -1]))
        elif mode == 'stopped':
            clock.virtual(cx.int(0, 10 ** 6), tick=1.)
            limit = cx.pick([1, 2, 3, 5, 10, 20, 50, 100]) + .5
            rows = cx.call('preprocess', ex.preprocess, O.nodes, O.splits,
                           P.X, P.y, P.depth, aggressive=True,
                           time_limit=limit)
            cx.count('stopped early', clock.reads() > limit)
            clock.real()
        else:
            est = gen.tree_estimator(P, O)
            mp = est.master_problem
            cx.call('generate_mp', mp.generate_mp, P.X, P.y)
            if mode == 'master':
                rows = mp.data_rows
            else:
                rows = cx.call('preprocess_rows', mp.preprocess_rows,
                               aggressive=True)
    judge(cx, P, rows, mode, 'merge' in mode or mode == 'stopped',
          weights='master' not in mode)
    cx.check([list(nd.candidate_splits) for nd in O.nodes] == cands,
             'candidate splits changed by preprocessing')
    if 'master' not in mode:
        for d, t in zip(rows, P.y):
            cx.check(d.target == t, 'target of a row', '%s %s' % (
                d.target, t))
        if cx.flip(.3):
            O.data_rows = rows
            est = gen.tree_estimator(P, O)
            mp = est.master_problem
            cx.call('generate_mp', mp.generate_mp, P.X, P.y)
            paths(cx, P, mp, rows)
    else:
        paths(cx, P, mp, rows)
    cx.sample(dict(size=P.size(), mode=mode, removed=[
        int(d.removed_from_master) + int(d.removed_from_sp) for d in rows]))


def paths(cx, P, mp, rows):
    """The recorded paths of a row are those it follows."""
    for r, d in enumerate(rows):
        want = {p.id for p in find.paths(mp) if oracle.route(
            P, int(p.leaf_id), oracle.assign_of(p), P.X[r:r + 1])[0]}
        cx.count('reachable paths compared')
        cx.check(set(d.reachable_paths) == want, 'paths of a row',
                 'row %d: %s instead of %s' % (r, d.reachable_paths, want),
                 problem=P)
