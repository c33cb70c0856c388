"""C18: duals of the tree master against an independent LP."""
import numpy as np

from rv import find, gen, oracle, probe

RULE = """Masters driven through random sequences of path insertions and
solves (beyond iterations 10 and 20, where cut rounds happen) in all cut
configurations, and complete trainings; after every solve the duals are checked for feasibility against
every inserted path and node/split pair, and their total is compared with the
LP optimum of an independent solver. Non-trivial: the LP optimum differs from
the best tree or rose after an insertion; distinct by (problem size, paths,
optimum)."""
ASSUMPTIONS = ["HiGHS solves the oracle LPs correctly",
               "relative tolerance 1e-5"]
LIMITS = {'quick': dict(cases=3000, budget=100),
          'thorough': dict(cases=75000, budget=600)}
MINIMUM = {'big problems': 4,
           'solves': 3000, 'paths inserted': 2000, 'row cuts in force': 30,
           'virtual cuts': 60, 'improving': 500, 'not improving': 60, 'unchanged': 2000,
           'certificates': 2000}
TOL = 1e-5


def setup():
    probe.install()


def random_path(cx, P, have):
    """A valid path that is not in the master yet (or None)."""
    for _ in range(20):
        leaf = cx.int(0, P.n_leaves - 1)
        nodes = [j for j, _ in oracle.turns(P.depth, leaf)]
        if cx.flip(.5):
            nodes = nodes[::-1]
        sp = [cx.pick(P.cands[j]) for j in nodes]
        cnt = oracle.class_counts(P, leaf, dict(zip(nodes, sp)))
        t = int(np.argmax(cnt)) if cx.flip(.85) else cx.int(0, P.k - 1)
        key = (leaf, tuple(sorted(zip(nodes, sp))), t)
        if key not in have:
            have.add(key)
            return gen.make_path(leaf, nodes, sp, t, int(cnt[t]))
    return None


def certify(cx, P, paths, duals, cuts, rows_as_cuts, full):
    """Checks one dual vector; returns the LP value it certifies."""
    leaf, row, ns, cut = [duals[0], np.asarray(duals[1], float), duals[2],
                          np.asarray(duals[3], float)]
    n = len(P.y)
    cx.check(len(leaf) == P.n_leaves and len(row) >= n and
             len(cut) == len(cuts), 'shape of the duals',
             '%d leaves %d rows %d cuts (%d known)' % (
                 len(leaf), len(row), len(cut), len(cuts)))
    scale = 1. + n
    cx.check((row >= -TOL * scale).all(), 'negative row dual',
             '%s' % row.min(initial=0))
    value = float(sum(leaf)) + row[:n].sum() + cut.sum()
    cx.count('certificates')
    for p in paths:
        a = oracle.assign_of(p)
        rc = p.cost + oracle.path_value(P, int(p.leaf_id), a, (
            leaf, row[:n], ns, cut), cuts)
        cx.check(rc <= TOL * scale, 'dual constraint of a path',
                 'leaf %s %s target %s count %s: reduced cost %.9g' % (
                     p.leaf_id, a, p.target, p.cost, rc), problem=P)
    for j, cand in enumerate(P.cands):
        lv = [l for l in range(P.n_leaves)
              if j in {q for q, _ in oracle.turns(P.depth, l)}]
        for s in cand:
            g = sum(float(ns[l][j][s]) for l in lv)
            cx.check(g <= TOL * scale, 'dual constraint of a node/split pair',
                     'node %d split %d: %.9g' % (j, s, g))
    if full:
        top = oracle.tree_lp(P, paths, rows=range(n), cut_rows=cuts)
        cx.check(top is not None, 'master LP with cuts is infeasible')
        cx.check(value >= top - TOL * scale, 'dual total below the optimum',
                 '%.9g < %.9g' % (value, top), problem=P)
        if rows_as_cuts:
            up = oracle.tree_lp(P, paths, cut_rows=cuts)
            cx.check(value <= up + TOL * scale,
                     'dual total above the LP without row constraints',
                     '%.9g > %.9g' % (value, up), problem=P)
            if value < up - 1e-4:
                cx.count('row cuts in force')
        else:
            cx.check(value <= top + TOL * scale,
                     'dual total above the optimum', '%.9g > %.9g' % (
                         value, top), problem=P)
    return value


def case(cx):
    gen.seed_global(cx)
    cutting = cx.flip(.6)
    if cutting:
        # Many splits and few rows: fractional solutions that call for cuts.
        P = gen.tree_problem(cx, depth=cx.pick([2, 2, 2, 3]), nmax=cx.pick(
            [5, 8, 12, 40]), max_splits=12, many=True, duplicates=False)
    else:
        P = gen.tree_problem(cx, depth=gen.deep(cx, .02, False) or
                             cx.pick([1, 2, 2, 2, 2, 3]),
                             nmax=cx.pick([18, 18, 18, 60]),
                             duplicates=cx.flip(.2),
                             trees=cx.pick([None, None, None, 12]),
                             rich=.15, big=.03)
    O = gen.build(P)
    opt = gen.tree_options(cx)
    opt['use_old_sp'] = False
    if cutting:
        opt.update(num_master_cuts_round=cx.int(1, 5),
                   master_generate_cuts=True)
    if cutting and len(P.y) > 12:
        cx.count('many rows')
        opt['master_generate_cuts'] = cx.flip(.3)
        opt['master_beta_constraints_as_cuts'] = cx.flip(.2)
    elif cutting and cx.flip(.5):
        opt['master_beta_constraints_as_cuts'] = True
    as_cuts = opt['master_beta_constraints_as_cuts']
    paths = list(O.paths)
    est = gen.tree_estimator(P, O, **opt)
    probe.start(cap=10 ** 9)
    if P.depth > 4:
        cx.count('deeper problems')
        est.max_iterations = opt['max_iterations'] = 2
    if not P.rich and cx.flip(.25):
        return training(cx, P, O, est, opt)
    mp = est.master_problem
    cx.call('generate_mp', mp.generate_mp, P.X, P.y)
    have = {(int(p.leaf_id), tuple(sorted(oracle.assign_of(p).items())),
             int(p.target)) for p in paths}
    cuts, prev, same = [], 0., False
    insert = cx.pick([.3, .7, .95])
    for it in range(cx.pick([4, 11, 11, 21, 31])):
        ins = 0
        if it and cx.flip(insert):
            bulk = P.depth > 2 and cx.flip(.03)
            for _ in range(cx.pick([280, 1050]) if bulk
                           else cx.pick([1, 2, 5, 12])):
                p = random_path(cx, P, have)
                if p is None:
                    break
                ok = cx.call('add_column', mp.add_column, p)
                cx.check(bool(ok), 'new path not accepted')
                paths.append(p)
                ins += 1
                cx.count('paths inserted')
            cx.count('more than 256 paths', bulk and len(paths) > 256)
        d = cx.call('solve_rmp', mp.solve_rmp, '')
        cx.count('solves')
        cuts = cuts + [list(map(bool, c)) for c in d[4]]
        cx.count('virtual cuts', len(d[4]))
        full = (it + 1) % 10 == 0 or ins > 0 or it == 0
        value = certify(cx, P, paths, d, cuts, as_cuts,
                        full and (cx.flip(.4) or (it + 1) % 10 == 0))
        improved(cx, mp, prev, value)
        if value > prev + 1e-6 and it:
            cx.nontrivial((P.size(), len(paths), round(value, 6)))
        prev = value
    cx.sample(dict(size=P.size(), options=opt, paths=len(paths), cuts=len(
        cuts), value=prev))


def improved(cx, mp, prev, value):
    f = bool(mp.rmp_objective_improved())
    objective = float(find.lp(mp).Objective().Value())
    if objective == mp.__dict__.get('rv_objective'):
        cx.count('unchanged')
        cx.check(not f, 'improvement report of an unchanged value')
    mp.rv_objective = objective
    if abs(value - prev) > 1e-6 * (1 + abs(value)):
        cx.count('improving' if value > prev else 'not improving')
        cx.check(f == (value > prev), 'improvement report',
                 'reported %s but the value went from %.9g to %.9g' % (
                     f, prev, value))


def training(cx, P, O, est, opt):
    paths = list(O.paths)
    rec = probe.start()
    cx.call('fit', est.fit, P.X, P.y)
    probe.stop()
    cuts, prev, imp, sure, n = [], 0., 0, True, 0
    for e in rec.ev:
        if e['kind'] == 'add_column' and e['ret']:
            paths = paths + [e['args'][0]]
            cx.count('paths inserted')
        elif e['kind'] == 'solve_rmp':
            cx.count('solves')
            d = e['ret']
            cuts = cuts + [list(map(bool, c)) for c in d[4]]
            cx.count('virtual cuts', len(d[4]))
            value = certify(cx, P, paths, d, cuts,
                            opt['master_beta_constraints_as_cuts'],
                            cx.flip(.2) or n % 10 == 9)
            n += 1
            if abs(value - prev) > 1e-6 * (1 + abs(value)):
                imp += value > prev
            else:
                sure = False
            prev = value
    cx.check(est.num_improving_iter_ >= imp and
             (not sure or est.num_improving_iter_ == imp),
             'number of improving iterations', '%s, at least %s rose' % (
                 est.num_improving_iter_, imp))
    cx.nontrivial((P.size(), len(paths), round(prev, 6)))
