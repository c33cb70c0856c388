"""C02: limits and termination flags, under a virtual clock."""
from rv import engine, realrun

RULE = """Scripted column generation runs as in C01, with iteration limits,
time limits and durations drawn so that limits are crossed inside the master
solve, the dual update, the pricing, the column insertion and the model
generation; limits and flags are judged from the recorded trace. A seventh of
the runs train the real Boolean rule and decision tree classifiers instead,
with their master and pricing calls recorded and taking scripted durations.
Non-trivial:
a positive limit is set or the optimum is reported; distinct by limits,
stopping point and flags."""
ASSUMPTIONS = ["limits of exactly zero and elapsed times exactly equal to the"
               " limit are not exercised",
               "time only passes inside master, pricing and insertion calls"]
LIMITS = {'quick': dict(cases=12000, budget=100),
          'thorough': dict(cases=300000, budget=600)}
MINIMUM = {'real trainings': 100, 'stopped by time': 100, 'stopped by iterations': 100,
           'optimal': 100, 'refits': 50}


def setup():
    realrun.install()


def runs(cx, n):
    return (realrun if cx.flip(.15) else engine).training_run(cx, n)


def case(cx):
    n = 0
    for clf, cfg, tr, o in runs(cx, cx.pick([1, 2, 3])):
        if n:
            cx.count('refits')
        n += 1
        verify(cx, clf, cfg, tr, o)


def verify(cx, clf, cfg, tr, o):
    shape = cfg['shape']
    pos = engine.positions(shape)
    pre, its, post = engine.split_iterations(cx, tr)
    T, M = cfg['time_limit'], cfg['max_iterations']
    ck = lambda c, k, m='': cx.check(c, k, m, cfg=cfg, n_iter=len(its))
    if o['error'] is not None and not (cfg['rmp_is_ip'] and not o['ip_ok']):
        ck(False, 'exception in training', repr(o['error']))
    if M > 0:
        ck(len(its) <= M, 'more iterations than the limit',
           '%d > %d' % (len(its), M))
    for it in its:
        for e in it:
            if e['kind'] == 'generate':
                if T > 0:
                    ck(e['t0'] - o['start'] <= T,
                       'pricing asked after the time limit',
                       'elapsed %.3f limit %s' % (e['t0'] - o['start'], T))
                cx.count('pricing calls judged')
    facts = [engine.iteration_facts(cx, it, shape) for it in its]
    opt, tl = bool(clf.mp_optimal_), bool(clf.time_limit_reached_)
    ck(bool(facts), 'no iteration')
    acc, asked, complete = facts[-1]
    expect_opt = complete and not acc
    ck(opt == expect_opt, 'optimality flag wrong',
       'flag %s, last iteration asked %s accepted %s' % (opt, asked, acc))
    ck(not (opt and tl), 'both flags set')
    last = max([e.get('t1', e['t0']) for it in its for e in it])
    elapsed = last - o['start']
    if expect_opt:
        ck(not tl, 'time limit reported although training finished')
        cx.count('optimal')
    elif not acc and not complete:
        # Pricing was cut short: only the time limit can do that.
        ck(tl, 'pricing cut short but no time limit reported')
        ck(T > 0 and elapsed > T, 'stopped before the time limit',
           'elapsed %.3f limit %s' % (elapsed, T))
        cx.count('stopped by time')
    else:
        # The last iteration accepted a column.
        if tl:
            ck(T > 0 and elapsed > T, 'time limit reported too early',
               'elapsed %.3f limit %s' % (elapsed, T))
            cx.count('stopped by time')
        else:
            ck(M > 0 and len(its) == M, 'training stopped without a reason',
               '%d iterations, limit %s' % (len(its), M))
            cx.count('stopped by iterations')
    ck(hasattr(clf, 'iter_') and clf.iter_ == len(its),
       'iteration counter wrong')
    if T > 0 or M > 0 or opt:
        cx.nontrivial((T, M, len(its), opt, tl, asked, acc,
                       round(elapsed, 2)))
    cx.sample(dict(cfg, iterations=len(its), optimal=opt, time_limited=tl,
                   elapsed=elapsed))
