"""C23: the experiment command from data files to the result file."""
import csv
import glob
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from rv import clock, core, gen, oracle, probe
from rv.checks import c22
from rv.checks.c14 import tree_of

RULE = """The experiment command on generated train/test file pairs (text and
numeric labels, several separators, with and without header, depth 1-4,
iteration limits) in scratch directories, in-process with the trained
estimator captured and as a separate process; every field of the result file
that describes accuracy or counts is compared with an independently trained
CART tree, the independent evaluation of the learned tree and the recorded
events. Non-trivial: column generation improved on CART or generated paths;
distinct by (data, options)."""
ASSUMPTIONS = ["features are exactly representable in single precision",
               "CART is scikit-learn's tree with random_state 99",
               "runs that meet a listed finding are not judged further"]
LIMITS = {'quick': dict(cases=150, budget=90, timeout=200),
          'thorough': dict(cases=3750, budget=600, timeout=400)}
MINIMUM = {'runs': 40, 'result files': 40, 'separate processes': 3,
           'better than CART': 5, 'iteration limits': 10,
           'columns counted': 50, 'runs with time limit': 10,
           'time limits reached': 3}

PATH_KEY = 'initial path uses a split that is not a candidate of its node'


def setup():
    probe.install()


class Run:
    pass


def make(cx, n=None, depth=None):
    R = Run()
    many = cx.pick([20, 130]) if n is None and cx.flip(.06) else 0
    D = R.D = c22.data(cx, nmax=n or cx.pick([20, 40, 70]), many=many)
    while len(D.y) < 12 or (D.X == D.X[0]).all():
        D = R.D = c22.data(cx, nmax=n or 40)
    R.depth = depth or (1 if many else cx.pick([1, 2, 2, 2, 3, 3, 4]))
    nt = cx.int(3, 20)
    rows = cx.rng.randint(0, len(D.y), nt)
    R.TX = D.X[rows].copy()
    f = cx.rng.rand(*R.TX.shape) < .2
    R.TX[f] += .5
    R.Ty = np.where(cx.rng.rand(nt) < .7, D.y[rows],
                    cx.rng.randint(0, D.k, nt))
    names = cx.pick([['a', 'b', 'c', 'd'], ['10', '9', '-3', '2'],
                     ['yes', 'no', 'Maybe', 'x y'], ['0', '1', '2', '3']])
    if D.k > 4:
        style = cx.pick(['n%d', '%d'])
        names = [style % i for i in range(D.k)]
    R.names = np.array(names[:D.k])
    R.sep = cx.pick([',', ',', ';', '\t'])
    R.header = cx.flip(.8)
    # Without a limit only small models end soon.
    R.limit = cx.pick([-1, -1, 1, 2, 3, 5] if R.depth < 3 and len(D.y) <= 40
                      else [1, 2, 3, 5])
    if D.k > 4:
        R.limit = cx.pick([1, 2])
    R.dir = cx.pick(['', 'mine'])
    return R


def write(R, root):
    for name, X, y in (('train.csv', R.D.X, R.D.y),
                       ('test.csv', R.TX, R.Ty)):
        with open(os.path.join(root, name), 'w') as f:
            if R.header:
                f.write(R.sep.join(['f%d' % j for j in range(X.shape[1])] +
                                   ['target']) + '\n')
            for x, t in zip(X, y):
                f.write(R.sep.join([repr(float(v)) for v in x] +
                                   [R.names[t]]) + '\n')


def arguments(cx, R, root, seconds=None):
    a = ['-T', os.path.join(root, 'train.csv'), '-t',
         os.path.join(root, 'test.csv'), '-S', R.sep, '-d', str(R.depth),
         '-i', str(R.limit)]
    if not R.header:
        a += ['-H', '-1']
    if seconds is not None:
        a += ['-s', str(seconds)]
    if R.dir:
        a += ['-r', R.dir]
    if cx.flip(.3):
        long = {'-T': '--train_file', '-t': '--test_file', '-S': '--sep',
                '-d': '--depth', '-i': '--iterations', '-H': '--header',
                '-s': '--time_limit', '-r': '--results_dir'}
        b = []
        for i in range(0, len(a), 2):
            b += [long[a[i]] + '=' + a[i + 1]]
        a = b
    return a


def results(cx, root):
    fs = glob.glob(os.path.join(root, '**', '*results*.csv'), recursive=True)
    cx.check(len(fs) == 1, 'one result file', str(fs))
    cx.count('result files')
    rows = list(csv.DictReader(open(fs[0], newline='')))
    cx.check(len(rows) == 2 and sorted(r['name'] for r in rows)[0] == 'CART',
             'one row for CART and one for column generation', str(rows))
    a, b = rows if rows[0]['name'] == 'CART' else rows[::-1]
    return a, b


def accuracy(cx, R, row, what, train, test):
    for k, v in (('train_accuracy', train), ('test_accuracy', test)):
        cx.check(abs(float(row[k]) - v) < 1e-9, what + ': ' + k,
                 '%s instead of %s' % (row[k], v), data=vars(R.D))


def cart_row(cx, R, row):
    from sklearn.tree import DecisionTreeClassifier
    # Labels are numbered in the order of the names in the file.
    t = DecisionTreeClassifier(max_depth=R.depth, random_state=99)
    t.fit(R.D.X, R.code[R.D.y])
    a = float((t.predict(R.D.X) == R.code[R.D.y]).mean())
    b = float((t.predict(R.TX) == R.code[R.Ty]).mean())
    accuracy(cx, R, row, 'CART', a, b)
    return a


def encode(R):
    """Class numbers as read from the file (numeric labels are numbers)."""
    v = list(R.names)
    try:
        v = [float(x) for x in v]
    except ValueError:
        pass
    R.code = np.array([sorted(v).index(x) for x in v])


def known(cx, est):
    """The listed defect of the initial paths."""
    for p in est.initial_paths:
        for j, s in zip(p.node_ids, p.splits):
            if s not in est.nodes[j].candidate_splits:
                return 'leaf %d: split %d at node %d with candidates %s' % (
                    p.leaf_id, s, j, est.nodes[j].candidate_splits)
    return None


def capture(ex):
    """Records the estimator the command trains."""
    made = []
    orig = ex.DTreeClassifier

    class Captured(orig):
        def __init__(self, *a, **k):
            made.append(self)
            orig.__init__(self, *a, **k)
    Captured.__name__ = orig.__name__
    ex.DTreeClassifier = Captured
    return made, orig


def inside(cx, ex, R, args, root, tick=0.):
    """Runs the command in this process; (estimator, recorder, error)."""
    made, orig = capture(ex)
    old = os.getcwd()
    rec = probe.start(cap=600)
    if tick:
        clock.virtual(1e6, tick=tick)
    err = None
    try:
        os.chdir(root)
        with gen.quiet():
            ex.main(args)
    except core.Runaway:
        raise
    except (Exception, SystemExit) as e:
        err = e
    finally:
        os.chdir(old)
        clock.real()
        probe.stop()
        ex.DTreeClassifier = orig
    return made, rec, err


def case(cx):
    import examples.dtree_experiment as ex
    root = tempfile.mkdtemp(prefix='run_', dir=os.getcwd())
    try:
        if cx.idx < len(FIXED):
            FIXED[cx.idx](cx, ex, root)
        elif cx.idx % 16 == 7:
            separate(cx, root)
        else:
            normal(cx, ex, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def normal(cx, ex, root):
    gen.seed_global(cx)
    R = make(cx)
    encode(R)
    write(R, root)
    os.makedirs(os.path.join(root, 'results', R.dir))
    tick, seconds = 0., None
    if cx.flip(.5):
        # Preprocessing stops at its time limit.
        tick, seconds = 1., cx.pick([30, 45, 60, 100, 300, 600])
        if R.D.k <= 4 and seconds <= 100 and cx.flip(.7):
            R.limit = -1            # the time limit stops the training
    args = arguments(cx, R, root, seconds)
    made, rec, err = inside(cx, ex, R, args, root, tick)
    cx.count('runs')
    cx.check(len(made) == 1 or err is not None, 'number of trained models')
    listed = bool(made and known(cx, made[0]))
    cx.count('known: paths without candidates', listed)
    if listed and err is not None:
        return
    if made and seconds and made[0].time_limit <= 0:
        cx.count('known: time limit lost')
    cx.check(err is None, 'the command fails', repr(err), args=args,
             data=vars(R.D))
    est = made[0]
    a, b = results(cx, root)
    base = cart_row(cx, R, a)
    P = c22.as_problem(R.D, R.depth, {s.id: (int(s.feature), float(
        s.threshold)) for s in est.splits}, [
            [int(s) for s in nd.candidate_splits] for nd in est.nodes])
    P.y = R.code[R.D.y]
    sel = est.master_problem.selected_paths
    if listed:                          # the tree may be inconsistent
        train = np.asarray(est.predict(R.D.X))
        test = np.asarray(est.predict(R.TX))
    else:
        tree_of(cx, P, sel)
        train = follow(P, sel, R.D.X)
        test = follow(P, sel, R.TX)
    ta = float((train == P.y).mean())
    accuracy(cx, R, b, 'column generation', ta,
             float((test == R.code[R.Ty]).mean()))
    cx.check(listed or ta >= base - 1e-9, 'column generation worse than CART',
             '%s < %s' % (ta, base), data=vars(R.D), args=args)
    its = len(rec.of('solve_rmp'))
    cx.check(R.limit < 0 or its <= R.limit, 'iteration limit', str(its))
    cx.count('iteration limits', R.limit > 0)
    cx.check(int(float(b['total_iterations'])) == its, 'iterations written',
             '%s instead of %s' % (b['total_iterations'], its))
    cols = {'heuristic': 0, 'ip': 0}
    for i, e in enumerate(rec.ev):
        if e['kind'] == 'generate':
            src = 'heuristic' if e['obj'] is est.subproblems[0][0] else 'ip'
        elif e['kind'] == 'add_column' and e['ret']:
            cols[src] += 1
    for k, v in cols.items():
        cx.count('columns counted', v)
        cx.check(int(float(b['sp_cols_added_' + k])) == v,
                 'columns written', '%s: %s instead of %s' % (
                     k, b['sp_cols_added_' + k], v))
    rose, sure = improving(rec)
    imp = int(b['num_improving_iter'])
    cx.check(imp == rose if sure else rose <= imp <= its,
             'improving iterations written', '%s, %s%d rose' % (
                 imp, '' if sure else 'at least ', rose))
    if tick and est.time_limit > 0:
        in_time(cx, est, rec, tick, seconds)
    cx.check(int(b['master_num_cuts']) == est.master_problem.total_cuts_added,
             'cuts written')
    g = [e for e in rec.of('generate') if e['obj'] is est.subproblems[0][0]]
    rate = float(b['heuristic_hit_rate'])
    cx.check(0 <= rate <= 1, 'hit rate', str(rate))
    if not any(e['ret'] for e in g):
        cx.check(rate == 0, 'hit rate without a hit', str(rate))
    for k in b:
        if 'time' in k:
            cx.check(float(b[k]) >= 0, 'negative time', k)
    cx.count('better than CART', ta > base + 1e-9)
    if sum(cols.values()) or ta > base:
        cx.nontrivial((R.D.X.tolist(), R.D.y.tolist(), R.depth, R.limit))
    cx.sample(dict(rows=R.D.X.shape, depth=R.depth, limit=R.limit, cart=base,
                   cg=ta, iterations=its, columns=cols))


def improving(rec):
    """(number of clear rises of the LP value, all others unchanged)"""
    prev, rose, sure = 0., 0, True
    for e in rec.of('solve_rmp'):
        v = e['value']
        if v is None:
            return rose, False
        if abs(v - prev) > 1e-6 * (1 + abs(v)):
            rose += v > prev
        elif v != prev:
            sure = False
        prev = v
    return rose, sure


def in_time(cx, est, rec, tick, seconds):
    """No pricing starts after the limit (virtual clock; a few readings of
    the clock may lie between the last test and the recorded time, and the
    libraries read it while the files are loaded)."""
    slack = 8 * tick
    fit = rec.of('generate_mp')[0]['t0']
    late = [e['t0'] for e in rec.of('generate')]
    cx.count('runs with time limit')
    if est.time_limit_reached_:
        cx.count('time limits reached')
    cx.check(not late or late[-1] - fit <= est.time_limit + slack,
             'time limit of the training', '%s seconds after the start, the '
             'limit is %s' % (late and late[-1] - fit, est.time_limit))
    cx.check(not late or late[-1] - 1e6 <= seconds + 40 * tick,
             'time limit of the command', '%s seconds after the start, the '
             'limit is %s' % (late and late[-1] - 1e6, seconds))


def follow(P, sel, T):
    want = np.full(len(T), -1)
    for p in sel:
        want[oracle.route(P, int(p.leaf_id), oracle.assign_of(p), T)] = \
            p.target
    return want


def separate(cx, root):
    """The command line as documented, as a process of its own."""
    R = make(cx, n=30, depth=cx.pick([1, 2]))
    encode(R)
    write(R, root)
    os.makedirs(os.path.join(root, 'results', R.dir))
    import examples.dtree_experiment as ex
    pre = os.path.join(root, 'pre')
    os.makedirs(os.path.join(pre, 'results', R.dir))
    args = arguments(cx, R, root)
    made, _, _ = inside(cx, ex, R, args, pre)
    if made and known(cx, made[0]):
        cx.count('known: paths without candidates')
        return
    shutil.rmtree(pre)
    env = dict(os.environ, PYTHONPATH=core.REPO)
    p = subprocess.run(
        [sys.executable, '-B', os.path.join(
            core.REPO, 'examples', 'dtree_experiment.py')] +
        args, cwd=root, env=env, stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=180)
    cx.count('runs')
    err = p.stderr.decode(errors='replace')
    cx.check(p.returncode == 0, 'the command fails', err[-1500:],
             data=vars(R.D))
    cx.count('separate processes')
    a, b = results(cx, root)
    base = cart_row(cx, R, a)
    cx.check(float(b['train_accuracy']) >= base - 1e-9,
             'column generation worse than CART')
    n = len(R.D.y)
    for r, k, m in ((b, 'train_accuracy', n), (b, 'test_accuracy',
                                               len(R.Ty))):
        v = float(r[k]) * m
        cx.check(abs(v - round(v)) < 1e-6 and 0 <= round(v) <= m,
                 'accuracy is a fraction of the rows', r[k])
    its = int(float(b['total_iterations']))
    cx.check(its >= 1 and (R.limit < 0 or its <= R.limit),
             'iteration limit', str(its))
    cx.nontrivial((R.D.X.tolist(), R.depth, 'process'))




# ------------------------------------------- fixed inputs of the known defects
def defect(cx, ex, root, seed, depth, header=True, seconds=None, tick=0.,
           mkdir=True, constant=False):
    fx = core.Case(seed, 0, 'quick')
    R = make(fx, n=30, depth=depth)
    R.sep, R.header, R.limit, R.dir = ',', True, 2, ''
    R.names = np.array(['a', 'b', 'c', 'd'][:R.D.k])
    if constant:
        R.D.X[:] = 1.
        R.TX[:] = 1.
    encode(R)
    write(R, root)
    if mkdir:
        os.makedirs(os.path.join(root, 'results'))
    fx.rng.seed(0)
    args = ['-T', os.path.join(root, 'train.csv'), '-t',
            os.path.join(root, 'test.csv'), '-d', str(depth), '-i', '2']
    if seconds:
        args += ['-s', str(seconds)]
    return inside(cx, ex, R, args, root, tick)


def no_directory(cx, ex, root):
    made, rec, err = defect(cx, ex, root, 1, 1, mkdir=False)
    cx.check(err is None or not isinstance(err, FileNotFoundError),
             'result directory is not created', repr(err))
    cx.check(err is None, 'the command fails', repr(err))


def deep(cx, ex, root):
    made, rec, err = defect(cx, ex, root, 2, 7, seconds=60, tick=2.)
    empty = [nd.id for nd in made[0].nodes if not nd.candidate_splits] \
        if made else []
    cx.check(not empty, 'no candidate splits at depth 7',
             '%d nodes without candidates' % len(empty))
    cx.check(err is None, 'the command fails', repr(err))


def foreign(cx, ex, root):
    made, rec, err = defect(cx, ex, root, FOREIGN[0], FOREIGN[1])
    used = {}
    for p in made[0].master_problem.selected_paths if not err else ():
        for j, s in oracle.assign_of(p).items():
            used.setdefault(j, set()).add(s)
    cx.check(all(len(s) == 1 for s in used.values()), PATH_KEY,
             'selected paths use several splits at a node: %s' % used)
    cx.check(err is None, 'the command fails', repr(err))


def time_lost(cx, ex, root):
    made, rec, err = defect(cx, ex, root, 4, 1, seconds=30, tick=5.)
    cx.check(bool(made), 'the command fails', repr(err))
    cx.check(made[0].time_limit > 0,
             'time limit is lost when preprocessing uses it up',
             '30 seconds given, training is limited to %s' %
             made[0].time_limit)
    cx.check(err is None, 'the command fails', repr(err))


def constant(cx, ex, root):
    made, rec, err = defect(cx, ex, root, 5, 2, constant=True)
    cx.check(not isinstance(err, IndexError),
             'data without any split', repr(err))
    cx.check(err is None, 'the command fails', repr(err))


FOREIGN = (27, 3)
FIXED = [no_directory, deep, foreign, time_lost, constant]
