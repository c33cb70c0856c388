"""C01: trace specification of the column generation protocol."""
import numpy as np
from rv import engine, realrun

RULE = """Each case trains a classifier built over scripted master and pricing
objects (1-4 levels of 1-3 pricing problems, random generation, acceptance,
durations, limits, one or two training runs) and checks the recorded call
trace against the protocol. A seventh of
the runs train the real Boolean rule and decision tree classifiers instead,
with their master and pricing calls recorded and taking scripted durations.
Non-trivial: a trace with at least one pricing
call; distinct by the sequence of calls, positions and acceptances."""
ASSUMPTIONS = ["limits of exactly zero are not exercised",
               "within a level, pricing problems after a successful one may "
               "or may not be asked"]
LIMITS = {'quick': dict(cases=8000, budget=100),
          'thorough': dict(cases=200000, budget=600)}
MINIMUM = {'real trainings': 100, 'iterations': 500, 'columns accepted': 300,
           'columns rejected': 100, 'integer solves': 50,
           'failed integer solves': 5, 'later level asked': 50}


def same(a, b):
    return a == b


def setup():
    realrun.install()


def runs(cx, n):
    return (realrun if cx.flip(.15) else engine).training_run(cx, n)


def case(cx):
    for clf, cfg, tr, o in runs(cx, cx.pick([1, 1, 2])):
        verify(cx, clf, cfg, tr, o)


def verify(cx, clf, cfg, tr, o):
    shape = cfg['shape']
    pos = engine.positions(shape)
    pre, its, post = engine.split_iterations(cx, tr)
    text = brief(tr)
    ck = lambda c, k, m='': cx.check(c, k, m, cfg=cfg, trace=text)
    failing_ip = cfg['rmp_is_ip'] and not o['ip_ok']
    if o['error'] is not None and not failing_ip:
        ck(False, 'exception in training', repr(o['error']))
    ck(len(pre) == 1 and pre[0]['kind'] == 'generate_mp',
       'master not generated exactly once before the first solve')
    ck(np.array_equal(pre[0]['X'], o['X']) and
       np.array_equal(pre[0]['y'], o['y']), 'master generated on other data')
    ck(len(its) >= 1, 'no iteration performed')
    for n, it in enumerate(its):
        ups, gens = engine.parse_iteration(cx, it, shape)
        s = it[0]
        ck(s['params'] == cfg['rmp_solver_params'], 'wrong master parameters')
        kinds = [e['kind'] for e in it[1:]]
        if 'generate' in kinds:
            ck('update' not in kinds[kinds.index('generate'):],
               'pricing asked before all dual updates')
        ck(sorted(u['pos'] for u in ups) == pos,
           'pricing problems not updated exactly once per iteration',
           str([u['pos'] for u in ups]))
        for u in ups:
            ck(same(u['duals'], s['duals']), 'update with stale duals')
            ck(np.array_equal(u['X'], o['X']) and np.array_equal(
                u['y'], o['y']), 'update with other data')
        asked = [g['pos'] for g, _ in gens]
        limited = cfg['time_limit'] > 0 and clf.time_limit_reached_ \
            and n == len(its) - 1
        # Order: increasing positions, contiguous from the start of a level.
        acc_levels = set()
        done = False
        exp_level = 0
        for g, adds in gens:
            ck(g['params'] == cfg['subproblem_params'][g['pos'][0]][
                g['pos'][1]], 'wrong pricing parameters', str(g['params']))
            ck(same(g['duals'], s['duals']), 'pricing with stale duals')
            ck(np.array_equal(g['X'], o['X']) and np.array_equal(
                g['y'], o['y']), 'pricing with other data')
            lev = g['pos'][0]
            ck(not any(a < lev for a in acc_levels),
               'later level asked although a column was accepted')
            # Columns: each exactly once, in order, unchanged.
            ck([a['snap'] for a in adds] == g['cols'],
               'generated columns not offered exactly once, in order and '
               'unchanged', '%s vs %s' % (len(adds), len(g['cols'])))
            for a in adds:
                cx.count('columns accepted' if a['accepted']
                         else 'columns rejected')
                if a['accepted']:
                    acc_levels.add(lev)
            if lev > 0:
                cx.count('later level asked')
        ck(asked == sorted(set(asked)), 'pricing asked twice or out of order',
           str(asked))
        # Nobody is skipped: asked must be a prefix of all positions, up to
        # the level of the first success.
        ck(asked == pos[:len(asked)], 'a pricing problem was skipped',
           str(asked))
        acc = bool(acc_levels)
        if not acc and not limited:
            ck(asked == pos, 'iteration ended before asking all pricing '
               'problems', str(asked))
        if acc:
            cx.count('productive iterations')
            at_limit = cfg['max_iterations'] > 0 and \
                n + 1 == cfg['max_iterations']
            if n == len(its) - 1:
                ck(at_limit or clf.time_limit_reached_,
                   'stopped although a column was accepted')
        else:
            ck(n == len(its) - 1, 'continued although no column was accepted')
        cx.count('iterations')
    if cfg['rmp_is_ip']:
        ck(len(post) == 1, 'integer master not solved exactly once',
           str(len(post)))
        ck(post[0]['params'] == cfg['master_ip_solver_params'],
           'wrong integer master parameters')
        cx.count('integer solves')
    else:
        ck(not post, 'integer master solved without being requested')
    if failing_ip:
        cx.count('failed integer solves')
        ck(o['error'] is not None, 'training succeeded although the integer '
           'master was not solved')
        if not o['was_fitted']:
            from sklearn.utils.validation import check_is_fitted
            from sklearn.exceptions import NotFittedError
            cx.raises(NotFittedError, 'fitted after failed integer master',
                      check_is_fitted, clf, 'is_fitted_')
    else:
        ck(o['ret'] is clf, 'training does not return the model')
        ck(getattr(clf, 'is_fitted_', False), 'model not marked as fitted')
    if any(e['kind'] == 'generate' for e in tr):
        cx.nontrivial(brief(tr))
    cx.sample(brief(tr))


def brief(tr):
    out = []
    for e in tr:
        k = {'generate_mp': 'G', 'solve_rmp': 'S', 'update': 'u',
             'generate': 'g', 'add_column': '+', 'solve_ip': 'I'}[e['kind']]
        if k == '+' and not e.get('accepted'):
            k = '-'
        if k == 'g':
            k += '%d.%d' % e['pos']
        if k != 'u':
            out.append(k)
    return ' '.join(out)
