"""C03: statistics against the recorded events, under a virtual clock."""
from rv import engine, realrun

RULE = """Scripted column generation runs (one to three trainings of the same
model) with random call durations on a virtual clock; every reported count and
time is recomputed from the recorded events. A seventh of
the runs train the real Boolean rule and decision tree classifiers instead,
with their master and pricing calls recorded and taking scripted durations.
Non-trivial: at least one column
was accepted; distinct by the vectors of counts."""
ASSUMPTIONS = ["time only passes inside master, pricing and insertion calls"]
LIMITS = {'quick': dict(cases=12000, budget=100),
          'thorough': dict(cases=300000, budget=600)}
MINIMUM = {'real trainings': 100, 'fits': 500, 'columns accepted': 300, 'refits': 100,
           'rejected columns': 100}


def close(a, b):
    return abs(a - b) <= 1e-5 * max(1., abs(b))


def setup():
    realrun.install()


def runs(cx, n):
    return (realrun if cx.flip(.15) else engine).training_run(cx, n)


def case(cx):
    n = 0
    for clf, cfg, tr, o in runs(cx, cx.pick([1, 2, 3])):
        if n:
            cx.count('refits')
        n += 1
        if o['error'] is not None:
            if not (cfg['rmp_is_ip'] and not o['ip_ok']):
                cx.check(False, 'exception in training', repr(o['error']))
            continue
        verify(cx, clf, cfg, tr, o)


def verify(cx, clf, cfg, tr, o):
    shape = cfg['shape']
    pre, its, post = engine.split_iterations(cx, tr)
    ck = lambda c, k, m='': cx.check(c, k, m, cfg=cfg)
    cols = [[0] * n for n in shape]
    tsp = [[0.] * n for n in shape]
    tadd = tmaster = tip = 0.
    for it in its:
        owner = None
        for e in it:
            d = e['t1'] - e['t0']
            if e['kind'] == 'solve_rmp':
                tmaster += d
            elif e['kind'] in ('update', 'generate'):
                tsp[e['pos'][0]][e['pos'][1]] += d
                owner = e['pos']
            elif e['kind'] == 'add_column':
                tadd += d
                if e['accepted']:
                    cols[owner[0]][owner[1]] += 1
                    cx.count('columns accepted')
                else:
                    cx.count('rejected columns')
    for e in post:
        tip += e['t1'] - e['t0']
    imp = sum(1 for it in its if it[0]['improved'])
    cx.count('fits')
    ck(clf.performed_iter_ == len(its), 'performed iterations',
       '%s instead of %s' % (clf.performed_iter_, len(its)))
    ck(clf.iter_ == len(its), 'iteration counter',
       '%s instead of %s' % (clf.iter_, len(its)))
    ck(clf.num_improving_iter_ == imp, 'improving iterations',
       '%s instead of %s' % (clf.num_improving_iter_, imp))
    ck([list(r) for r in clf.num_col_added_sp_] == cols,
       'columns added per pricing problem',
       '%s instead of %s' % (clf.num_col_added_sp_, cols))
    ck(len(clf.time_spent_sp_) == len(tsp) and
       all(len(a) == len(b) for a, b in zip(clf.time_spent_sp_, tsp)),
       'shape of the pricing times')
    for lev, (a, b) in enumerate(zip(clf.time_spent_sp_, tsp)):
        for i, (x, z) in enumerate(zip(a, b)):
            ck(close(x, z), 'time of a pricing problem',
               '%s.%s: %s instead of %s' % (lev, i, x, z))
    ck(close(clf.time_spent_master_, tmaster), 'time of the master',
       '%s instead of %s' % (clf.time_spent_master_, tmaster))
    ck(close(clf.time_add_col_, tadd), 'time of column insertion',
       '%s instead of %s' % (clf.time_add_col_, tadd))
    ck(close(clf.time_spent_master_ip_, tip), 'time of the integer master',
       '%s instead of %s' % (clf.time_spent_master_ip_, tip))
    ck(close(clf.time_elapsed_, o['end'] - o['start']), 'total time',
       '%s instead of %s' % (clf.time_elapsed_, o['end'] - o['start']))
    if any(any(r) for r in cols):
        cx.nontrivial((cols, len(its), imp))
    cx.sample(dict(shape=shape, iterations=len(its), columns=cols,
                   improving=imp, master=tmaster, elapsed=clf.time_elapsed_))
