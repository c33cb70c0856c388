"""Scripted master/pricing objects that record every call the column
generation engine makes, under a virtual clock, and the trace specification
of the engine's protocol."""
import copy
import numpy as np
from . import clock
from .core import Runaway, Violation

MAX_CALLS = 16000


class Column:
    """A generated column with a unique identity and mutable content."""

    def __init__(self, uid):
        self.uid = uid
        self.content = [uid, 'payload']

    def __eq__(self, other):
        return isinstance(other, Column) and self.uid == other.uid \
            and self.content == other.content

    def __hash__(self):
        return hash(self.uid)


class Log:
    def __init__(self):
        self.ev = []
        self.uid = 0

    def add(self, kind, **k):
        k['kind'] = kind
        k['t0'] = clock.now()
        self.ev.append(k)
        if len(self.ev) > MAX_CALLS:
            raise Runaway('more than %d calls' % MAX_CALLS)
        return k

    def next_uid(self):
        self.uid += 1
        return self.uid


class Script:
    """Random behaviour of the scripted objects during one training run."""

    def __init__(self, cx, shape, unit=1.):
        self.cx, self.unit = cx, unit
        # Iterations that may accept; some runs are long.
        self.long = sum(shape) <= 8 and cx.flip(.08)
        self.productive = cx.int(20, 60) if self.long else cx.int(0, 7)
        self.p_gen = cx.pick([.3, .6, .9])
        # Large batches, equal columns in a batch, columns that are false in
        # a Boolean context.
        self.big = not self.long and cx.flip(.06)
        self.plain = cx.flip(.15)
        self.p_accept = cx.pick([.2, .5, .9, 1.0])
        if self.long:
            self.p_gen, self.p_accept = .9, cx.pick([.9, 1.])
        self.p_improve = cx.pick([0., .5, 1.])
        self.slow = cx.pick(['master', 'sp', 'add', 'all', 'update', 'mp'])
        self.ip_ok = not cx.flip(.15)
        self.iter = 0
        self.solo = cx.flip(.2)             # only the last pricing generates
        self.shape = shape

    def marathon(self, n):
        self.productive, self.p_gen, self.p_accept = n, 1., 1.
        self.big = self.solo = False

    def dt(self, what):
        d = float(self.cx.rng.rand()) * .2 + 1e-3
        if self.slow in (what, 'all'):
            d *= float(self.cx.rng.choice([1, 3, 20]))
        return d * self.unit


def make_mocks(cx, log, shape):
    from col_gen_estimator import BaseMasterProblem, BaseSubproblem
    state = {'script': None}
    proto = vars(BaseSubproblem()) if cx.flip(.8) else None

    class Master(BaseMasterProblem):
        def generate_mp(self, X, y):
            log.add('generate_mp', X=X, y=np.array(y))
            clock.advance(state['script'].dt('mp'))
            log.ev[-1]['t1'] = clock.now()

        def add_column(self, column):
            e = log.add('add_column', column=column,
                        snap=copy.deepcopy(column))
            s = state['script']
            acc = s.iter <= s.productive and cx.flip(s.p_accept)
            clock.advance(s.dt('add'))
            e.update(accepted=acc, t1=clock.now())
            return acc

        def solve_rmp(self, solver_params=''):
            e = log.add('solve_rmp', params=solver_params)
            s = state['script']
            s.iter += 1
            clock.advance(s.dt('master'))
            d = cx.pick([lambda u: ('dual', u), lambda u: ['dual', [u]],
                         lambda u: {'dual': u}])(log.next_uid())
            e.update(duals=copy.deepcopy(d), improved=cx.flip(s.p_improve),
                     t1=clock.now())
            self.last = e
            return d

        def rmp_objective_improved(self):
            return self.last['improved']

        def solve_ip(self, solver_params=''):
            e = log.add('solve_ip', params=solver_params)
            clock.advance(state['script'].dt('ip'))
            e.update(t1=clock.now(), ok=state['script'].ip_ok)
            return state['script'].ip_ok

    class Sub(BaseSubproblem):
        def __init__(self, level, ind):
            if proto is None:
                super().__init__()
            else:   # the same state, without building two solvers each time
                for k, v in proto.items():
                    self.__dict__[k] = copy.copy(v) if isinstance(
                        v, (list, dict, set)) else v
            self.pos = (level, ind)

        def update_subproblem(self, X, y, dual_costs):
            e = log.add('update', pos=self.pos, X=X, y=np.array(y),
                        duals=copy.deepcopy(dual_costs))
            clock.advance(state['script'].dt('update'))
            e['t1'] = clock.now()

        def generate_columns(self, X, y, dual_costs, params):
            e = log.add('generate', pos=self.pos, X=X, y=np.array(y),
                        duals=copy.deepcopy(dual_costs), params=params)
            s = state['script']
            n = cx.int(1, 120 if s.big else 4) if cx.flip(s.p_gen) else 0
            if s.solo and self.pos != (len(shape) - 1, shape[-1] - 1):
                n = 0
            if s.plain:
                cols = [cx.pick([0, '', (), 1, 0., False, 'a', ('a',), 2])
                        if cx.flip(.9) else [] for _ in range(n)]
            else:
                cols = [Column(log.next_uid()) for _ in range(n)]
            clock.advance(s.dt('sp'))
            e.update(cols=copy.deepcopy(cols), t1=clock.now())
            return cols

    master = Master()
    subs = [[Sub(i, j) for j in range(n)] for i, n in enumerate(shape)]
    return master, subs, state


def training_run(cx, n_fits=1, limits=True):
    """Builds a classifier over scripted problems and trains it n_fits times.
    Yields (clf, config, trace, outcome) for every training run."""
    from col_gen_estimator import ColGenClassifier
    shape = [cx.int(1, 3) for _ in range(cx.int(1, 4))]
    if cx.flip(.06):
        shape = [cx.int(1, 12) for _ in range(cx.int(1, 8))]
    log = Log()
    master, subs, state = make_mocks(cx, log, shape)
    # Seconds, minutes, hours.
    unit = cx.pick([1.] * 6 + [60., 3600.])
    cx.count('long durations', unit > 1)
    cfg = dict(
        shape=shape,
        max_iterations=cx.pick([cx.int(1, 9), cx.int(1, 9), cx.int(10, 40)])
        if limits and cx.flip(.4) else cx.pick([-1, -1, -2, -3, -100]),
        time_limit=cx.pick([1, 2, 5, 0.5, 12]) * (unit if unit > 1 else 1)
        if limits and cx.flip(.5) else cx.pick([-1, -1, -2, -3, -.5, -600]),
        rmp_is_ip=cx.flip(.6),
        rmp_solver_params='rmp-%d' % cx.int(0, 99),
        master_ip_solver_params='ip-%d' % cx.int(0, 99),
        subproblem_params=[['sp-%d-%d-%d' % (i, j, cx.int(0, 99))
                            for j in range(n)] for i, n in enumerate(shape)])
    # Very long runs.
    marathon = cx.flip(.004)
    if marathon:
        cx.count('very long runs')
        shape[:] = [1] * cx.int(1, 2)
        cfg.update(max_iterations=cx.pick([-1, cx.int(200, 1100)])
                   if limits else -1, time_limit=-1,
                   subproblem_params=[['sp-%d' % i]
                                      for i in range(len(shape))])
        n_fits = 1
        master, subs, state = make_mocks(cx, log, shape)
    kw = {k: v for k, v in cfg.items() if k != 'shape'}
    clf = ColGenClassifier(master_problem=master, subproblems=subs, **kw)
    for f in range(n_fits):
        n, k = cx.int(3, 8), cx.int(2, 3)
        X = cx.rng.randn(n, cx.int(1, 3))
        y = np.concatenate([np.arange(k), cx.rng.randint(0, k, n - k)]) \
            if n >= k else np.arange(k)
        y = cx.rng.permutation(y)
        labels = np.sort(cx.rng.choice(np.arange(-5, 30), k, replace=False))
        if f and cx.flip(.3):       # some classes of the previous training
            k = min(k, len(previous))
            labels = np.sort(cx.rng.choice(previous, k, replace=False))
            y = y % k
        previous = labels
        state['script'] = Script(cx, shape, unit)
        if marathon:
            state['script'].marathon(cx.int(300, 1300))
        log.ev = []
        clock.virtual(1e6 * cx.rng.rand())
        start = clock.now()
        had = hasattr(clf, 'is_fitted_')
        err = None
        try:
            ret = clf.fit(X, labels[y])
        except Runaway as e:
            raise Violation('nontermination', str(e), cfg=cfg)
        except Exception as e:          # judged by the trace specification
            err, ret = e, None
        end = clock.now()
        clock.real()
        yield clf, cfg, log.ev, dict(
            error=err, ret=ret, start=start, end=end, X=X, y=y,
            labels=labels, was_fitted=had, ip_ok=state['script'].ip_ok)


def split_iterations(cx, tr):
    """Parses a trace: (prefix events, iterations, suffix events). Every
    iteration starts with a master solve."""
    pre, its, post = [], [], []
    for e in tr:
        if e['kind'] == 'solve_rmp':
            cx.check(not post, 'master solved after the integer master')
            its.append([e])
        elif e['kind'] == 'solve_ip':
            post.append(e)
        elif not its:
            pre.append(e)
        else:
            cx.check(not post, 'call after the integer master: ' + e['kind'])
            its[-1].append(e)
    return pre, its, post


def parse_iteration(cx, it, shape):
    """Groups an iteration into updates and (generate, [add_column...])."""
    ups, gens = [], []
    for e in it[1:]:
        if e['kind'] == 'update':
            ups.append(e)
        elif e['kind'] == 'generate':
            gens.append((e, []))
        elif e['kind'] == 'add_column':
            cx.check(bool(gens), 'column added before any was generated')
            gens[-1][1].append(e)
        else:
            raise Violation('unexpected call', e['kind'])
    return ups, gens


def positions(shape):
    return [(i, j) for i, n in enumerate(shape) for j in range(n)]


def iteration_facts(cx, it, shape):
    """(accepted?, positions asked, all asked?)"""
    ups, gens = parse_iteration(cx, it, shape)
    acc = any(a['accepted'] for _, adds in gens for a in adds)
    asked = [g['pos'] for g, _ in gens]
    return acc, asked, asked == positions(shape)
