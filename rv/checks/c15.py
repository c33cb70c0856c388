"""C15: validity and exact counts of all paths in a trained master."""
from rv import find, gen, oracle, probe
from rv.checks import c16

RULE = """Complete tree trainings (all row preprocessing modes, duplicates,
cuts, old and new exact pricing) and direct calls of all pricing problems with
random duals; every path in the master and every path offered by a pricing
problem is checked for structure and its count is recomputed from the training
rows. Non-trivial: at least three generated paths, one of them with a count
above one; distinct by (problem size, options, number of paths)."""
ASSUMPTIONS = []
LIMITS = {'quick': dict(cases=3000, budget=100),
          'thorough': dict(cases=75000, budget=600)}
MINIMUM = {'big problems': 15,
           'trainings': 250, 'generated paths': 2000,
           'paths with merged rows': 200, 'old pricing': 30,
           'direct pricing calls': 200}


def setup():
    probe.install()


def judge(cx, P, p, what):
    oracle.check_path(cx, P, p, what)
    true = oracle.true_count(P, p)
    cx.check(abs(p.cost - true) <= 1e-6, what + ': count of a path',
             'leaf %s nodes %s splits %s target %s: count %s, %s rows' % (
                 p.leaf_id, p.node_ids, p.splits, p.target, p.cost, true),
             problem=P)
    return true


def case(cx):
    gen.seed_global(cx)
    P = gen.tree_problem(cx, max_cands=cx.pick([3, 8, 8]),
                         depth=gen.deep(cx, .03, False), rich=.02, big=.04)
    if cx.flip(.3):
        direct(cx, P)
        return
    O = gen.build(P)
    opt = gen.tree_options(cx)
    if cx.flip(.2):
        opt['use_old_sp'] = True
    if opt['use_old_sp']:
        cx.count('old pricing')
    opt['max_iterations'] = cx.pick([-1, -1, -1, 3, 12] if P.depth < 4
                                    else [1, 2])
    rec = probe.start()
    est = gen.tree_estimator(P, O, **opt)
    cx.call('fit', est.fit, P.X, P.y)
    probe.stop()
    cx.count('trainings')
    merged = O.data_rows is not None and any(
        r.removed_from_sp for r in O.data_rows)
    big = 0
    offered = [p for e in rec.of('generate') for p in e['ret']]
    for p in offered:
        big += judge(cx, P, p, 'generated') > 1
        if merged:
            cx.count('paths with merged rows')
    cx.count('generated paths', len(offered))
    for p in find.paths(est.master_problem):
        judge(cx, P, p, 'master')
    if len(offered) >= 3 and big:
        cx.nontrivial((P.size(), sorted(opt.items()), len(offered)))
    cx.sample(dict(size=P.size(), options=opt, rows=P.rows,
                   generated=len(offered)))


def direct(cx, P):
    H = c16.Harness(cx, P)
    for _ in range(cx.int(1, 3)):
        for sp, leaf, target, paths, d in H.step(cx):
            cx.count('direct pricing calls')
            cx.count('generated paths', len(paths))
            for p in paths:
                judge(cx, P, p, 'priced')
