"""C27: isolation of models from each other and from the caller's objects."""
import copy
import threading

import numpy as np

from rv import find, gen, oracle, probe
from rv.checks import c18, c20
from rv.checks.c14 import tree_of

RULE = """Two or three decision trees built from the same definition objects
(created before or after the training of the others, different options),
Boolean rule classifiers in between, trained in random order (also in
concurrent threads); after every step all trained models are compared with
their recorded predictions and trees or rules, the caller's objects with a
deep snapshot, and every training is judged by the master certificate and the
quality oracles. Non-trivial: at least two trainings that generated paths on
the same objects; distinct by (problem size, trees)."""
ASSUMPTIONS = ["bookkeeping fields of definition objects (ids, cut sets, "
               "reachable paths) are not the caller's data"]
LIMITS = {'quick': dict(cases=900, budget=100),
          'thorough': dict(cases=22500, budget=600)}
MINIMUM = {'big problems': 5,
           'trainings on used objects': 300, 'models compared': 1000,
           'snapshots compared': 500, 'certificates': 1000,
           'rule models': 200, 'virtual cuts': 20,
           'concurrent trainings': 20, 'created before the first training':
           100}


def setup():
    probe.install()


def snapshot(O):
    """Everything the caller supplied, by value, and the list members."""
    val = dict(
        paths=[(int(p.leaf_id), list(p.node_ids), list(p.splits),
                int(p.target), float(p.cost)) for p in O.paths],
        leaves=[(l.id, list(l.left_nodes), list(l.right_nodes))
                for l in O.leaves],
        nodes=[(n.id, list(n.candidate_splits)) for n in O.nodes],
        splits=[(s.id, s.feature, s.threshold, sorted(s.left_rows),
                 sorted(s.right_rows)) for s in O.splits],
        targets=list(np.asarray(O.targets).tolist()),
        rows=None if O.data_rows is None else [
            (d.weight, d.removed_from_sp, d.removed_from_master,
             sorted(d.left_splits), sorted(d.reachable_leaves))
            for d in O.data_rows])
    ident = [[id(x) for x in l] for l in (
        O.paths, O.leaves, O.nodes, O.splits, O.data_rows or [])]
    return copy.deepcopy(val), ident


def same(cx, O, snap, what):
    cx.count('snapshots compared')
    val, ident = snapshot(O)
    for k in val:
        cx.check(val[k] == snap[0][k], "the caller's %s changed" % k,
                 'by %s: %s instead of %s' % (what, val[k], snap[0][k]))
    cx.check(ident == snap[1], "the caller's lists changed", 'by ' + what)


class Tree:
    def __init__(self, P, est, opt):
        self.P, self.est, self.opt, self.old = P, est, opt, None

    def state(self, T):
        sel = self.est.master_problem.selected_paths
        return ([(int(p.leaf_id), sorted(oracle.assign_of(p).items()),
                  int(p.target), float(p.cost)) for p in sel],
                np.asarray(self.est.predict(T)).tolist())


class Rule:
    def __init__(self, P, est):
        self.P, self.est, self.old = P, est, None

    def state(self, T):
        return ([list(map(int, c)) for c in
                 self.est.master_problem.explanation],
                np.asarray(self.est.predict(self.P.T)).tolist())


def case(cx):
    gen.seed_global(cx)
    many = cx.flip(.4)
    P = gen.tree_problem(cx, depth=cx.pick([1, 2, 2, 2]), nmax=14,
                         max_splits=9 if many else 8, many=many,
                         big=.04)
    O = gen.build(P)
    snap = snapshot(O)
    T = np.vstack([P.X, gen.unseen(cx, P, 6)])
    if cx.flip(.1):
        return threads(cx, P, O, snap, T)
    early = cx.flip(.5)
    if early:
        cx.count('created before the first training')

    def create():
        opt = gen.tree_options(cx)
        if many:
            opt.update(num_master_cuts_round=4, master_generate_cuts=True)
        opt['max_iterations'] = cx.pick([-1, -1, -1, 2])
        t = Tree(P, gen.tree_estimator(P, O, **opt), opt)
        same(cx, O, snap, 'creating a model')
        return t
    number = cx.int(2, 3)
    todo = [create() if early else None for _ in range(number)]
    cx.rng.shuffle(todo)
    done, grown = [], 0
    for i in range(number):
        if cx.flip(.5):
            done.append(rule(cx))
        t = todo[i] or create()
        if done and cx.flip(.1):        # use an old model in between
            cx.pick(done).est.get_params()
        paths = list(O.paths)
        rec = probe.start()
        cx.call('fit', t.est.fit, P.X, P.y)
        probe.stop()
        if i:
            cx.count('trainings on used objects')
        same(cx, O, snap, 'a training')
        tree_of(cx, P, t.est.master_problem.selected_paths)
        c20.judge(cx, P, t.est, rec, list(paths))
        certify(cx, P, t, rec, paths)
        grown += any(e['ret'] for e in rec.of('add_column'))
        t.old = t.state(T)
        done.append(t)
        unchanged(cx, done, T)
        same(cx, O, snap, 'prediction')
    if cx.flip(.3):
        # Refit of the first one does not change the others.
        k = [d for d in done if isinstance(d, Tree)][0]
        cx.call('fit', k.est.fit, P.X, P.y)
        k.old = k.state(T)
        unchanged(cx, done, T)
        same(cx, O, snap, 'a repeated training')
    if grown >= 2:
        cx.nontrivial((P.size(), [d.old for d in done]))
    cx.sample(dict(size=P.size(), models=len(done), early=early))


def unchanged(cx, done, T):
    for d in done:
        cx.count('models compared')
        got = d.state(T)
        cx.check(got[0] == d.old[0], 'another model changed (tree or rule)',
                 '%s instead of %s' % (got[0], d.old[0]))
        cx.check(got[1] == d.old[1], 'predictions of another model changed',
                 '%s instead of %s' % (got[1], d.old[1]))


def rule(cx):
    P = gen.rule_problem(cx, mmax=5, nmax=16)
    P.T = np.vstack([P.X, cx.rng.randint(0, 2, (8, P.X.shape[1]))])
    r = Rule(P, gen.rule_estimator(P, cx.flip(.4)))
    cx.call('fit', r.est.fit, P.X, P.y)
    r.old = r.state(None)
    cx.count('rule models')
    return r


def certify(cx, P, t, rec, paths):
    """Master certificates and the numbers of cuts start from nothing."""
    cuts = []
    for e in rec.ev:
        if e['kind'] == 'add_column' and e['ret']:
            paths = paths + [e['args'][0]]
        elif e['kind'] == 'solve_rmp':
            d = e['ret']
            cuts = cuts + [list(map(bool, c)) for c in d[4]]
            cx.count('virtual cuts', len(d[4]))
            c18.certify(cx, P, paths, d, cuts,
                        t.opt['master_beta_constraints_as_cuts'],
                        cx.flip(.3))


def threads(cx, P, O, snap, T):
    """Concurrent trainings of models with their own definition objects."""
    models, errors = [], []
    for _ in range(2):
        Q = gen.tree_problem(cx, depth=2, nmax=12)
        models.append(Tree(Q, gen.tree_estimator(Q, gen.build(Q)), {}))
    probe._state['workers'] = 1

    def run(t):
        try:
            t.est.fit(t.P.X, t.P.y)
        except BaseException as e:
            errors.append(repr(e))
    ts = [threading.Thread(target=run, args=(t,)) for t in models]
    [t.start() for t in ts]
    [t.join() for t in ts]
    cx.check(not errors, 'exception in concurrent trainings', str(errors))
    for t in models:
        cx.count('concurrent trainings')
        sel = t.est.master_problem.selected_paths
        tree_of(cx, t.P, sel)
        hits = int((np.asarray(t.est.predict(t.P.X)) == t.P.y).sum())
        cx.check(hits == sum(p.cost for p in sel),
                 'correct rows after concurrent trainings')
        best = oracle.best_of_paths(t.P, find.paths(t.est.master_problem))
        cx.check(hits == best, 'best tree after concurrent trainings',
                 '%s instead of %s' % (hits, best))
