"""Framework of the runtime-monitoring checks.

A check module defines
  RULE, ASSUMPTIONS, LIMITS   texts / tier limits
  MINIMUM                     event counters that must be reached, else the
                              run is inconclusive (exit 2)
  case(cx)                    generates one workload, runs the real code under
                              monitors and reports through cx
Cases are spread over worker processes; every case is reproducible from its
seed alone (see --replay).
"""
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time as _t
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
real_time = _t.time
real_sleep = _t.sleep
NPROC = int(os.environ.get('RV_NPROC', '8'))


class Violation(Exception):
    def __init__(self, key, msg, **detail):
        super().__init__(key + ': ' + msg)
        self.key, self.msg, self.detail = key, msg, detail


class Inconclusive(Exception):
    pass


class Runaway(Exception):
    """Raised by monitors when the code performs far more steps than any
    correct run could."""


def seed_of(*parts):
    h = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:4], 'big')


def short(o, n=1500):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + '...'


class Case:
    """What a check's case() function sees."""

    def __init__(self, seed, idx, tier):
        import numpy as np
        self.seed, self.idx, self.tier = seed, idx, tier
        self.thorough = tier == 'thorough'
        self.rng = np.random.RandomState(seed)
        self.py = random.Random(seed)
        self.counts = {}
        self.sigs = set()
        self.samples = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def nontrivial(self, sig):
        """Marks the case as distinct and non-trivial under this signature."""
        self.sigs.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(short(obj, 600))

    def check(self, cond, key, msg='', **detail):
        self.count('oracle evaluations')
        if not cond:
            raise Violation(key, msg, **detail)

    def call(self, what, fn, *a, **k):
        """Calls code under test; it has to complete."""
        try:
            return fn(*a, **k)
        except (Violation, Inconclusive):
            raise
        except Runaway as e:
            raise Violation('nontermination in ' + what, str(e))
        except Exception as e:
            raise Violation('exception in ' + what, repr(e),
                            trace=traceback.format_exc()[-2500:])

    def raises(self, exc, key, fn, *a, **k):
        """fn must raise exc (a class or a tuple)."""
        self.count('oracle evaluations')
        try:
            fn(*a, **k)
        except exc as e:
            return e
        except Exception as e:
            raise Violation(key, 'raised %r instead of %s' % (e, exc),
                            trace=traceback.format_exc()[-2500:])
        raise Violation(key, 'did not raise %s' % (exc,))

    def flip(self, p):
        return bool(self.rng.rand() < p)

    def pick(self, seq):
        return seq[self.rng.randint(len(seq))]

    def int(self, a, b):
        """Inclusive range."""
        return int(self.rng.randint(a, b + 1))


def prepare_process():
    """Process-wide setup before the code under test is imported."""
    sys.path.insert(0, REPO)
    from rv import clock
    clock.install()
    import warnings
    warnings.filterwarnings('ignore')
    import col_gen_estimator
    f = os.path.realpath(col_gen_estimator.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('imported %s instead of %s' % (f, REPO))


def disputed(mod, seed, idx, tier):
    """Repeats a case with several solvers behind every LP oracle."""
    import numpy as np
    from rv import clock, oracle
    random.seed(seed)
    np.random.seed(seed % (2**32))
    clock.real()
    oracle.STATE['strict'] = True
    try:
        mod.case(Case(seed, idx, tier))
    except Inconclusive:
        return True
    except Exception:
        pass
    finally:
        oracle.STATE['strict'] = False
    return False


def run_case(mod, seed, idx, tier):
    """Runs one case, returns a JSON-able result."""
    import numpy as np
    from rv import clock, oracle
    cx = Case(seed, idx, tier)
    random.seed(seed)
    np.random.seed(seed % (2**32))
    clock.real()
    out = {'idx': idx, 'seed': seed, 'status': 'ok'}
    t0 = real_time()
    try:
        try:
            oracle.STATE.update(used=False, strict=False)
            mod.case(cx)
        except Violation as v:
            # The oracle solvers have to agree about it.
            if oracle.STATE['used'] and disputed(mod, seed, idx, tier):
                raise Inconclusive('oracle solvers disagree')
            raise
    except Violation as v:
        out.update(status='violation', key=v.key, msg=short(v.msg),
                   detail={k: short(x, 3000) for k, x in v.detail.items()},
                   where=traceback.format_exc()[-1500:])
    except Inconclusive as e:
        out.update(status='inconclusive', msg=str(e))
    except Exception as e:
        tb = traceback.format_exc()
        # The oracle could not interpret what the code under test produced
        # (malformed results) - except for names that do not exist, which
        # means that the harness does not fit the code.
        bad = (AttributeError, NameError, ImportError, MemoryError)
        out.update(status='error' if isinstance(e, bad) else 'violation',
                   key='malformed result', msg=short(repr(e)),
                   detail={'trace': tb[-3000:]})
    finally:
        clock.real()
    # A case counts once, however many non-trivial steps it had.
    sigs = sorted(cx.sigs)
    if len(sigs) > 1:
        sigs = [hashlib.sha1(''.join(sigs).encode()).hexdigest()[:16]]
    out.update(counts=cx.counts, sigs=sigs, samples=cx.samples,
               wall=round(real_time() - t0, 3))
    return out


def worker(mod, a):
    """Worker process: runs its share of the cases."""
    out = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get('RV_DEBUG'):
        os.dup2(null, 2)
    sys.stdout = open(os.devnull, 'w')
    prepare_process()
    if hasattr(mod, 'setup'):
        mod.setup()
    for idx in range(a['start'], a['cases'], a['step']):
        if real_time() > a['deadline']:
            break
        seed = seed_of(a['seed'], a['id'], idx)
        out.write(json.dumps({'begin': idx}) + '\n')
        out.flush()
        r = run_case(mod, seed, idx, a['tier'])
        out.write(json.dumps(r) + '\n')
        out.flush()
    out.write(json.dumps({'done': 1}) + '\n')
    out.flush()
    out.close()
    os._exit(0)


class Proc:
    def __init__(self, args, scratch):
        self.args = args
        self.current = None
        self.since = real_time()
        self.finished = False
        self.buf = b''
        self.p = subprocess.Popen(
            [sys.executable, '-B', os.path.join(VERIF, 'run.py'), args['id'],
             '--worker', json.dumps(args)], stdout=subprocess.PIPE,
            stdin=subprocess.DEVNULL, cwd=scratch, start_new_session=True)
        os.set_blocking(self.p.stdout.fileno(), False)

    def lines(self):
        try:
            d = self.p.stdout.read()
        except (BlockingIOError, ValueError):
            d = None
        if d:
            self.buf += d
        *ls, self.buf = self.buf.split(b'\n')
        return [json.loads(x) for x in ls if x.strip()]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()


def load_findings(pid):
    """Active known findings of this property: mechanism key -> text."""
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s key=' % pid):
                key, _, text = line.split('key=', 1)[1].partition(' :: ')
                res[key] = text
    return res


def main(argv):
    pid = argv[0]
    mod = importlib.import_module('rv.checks.' + pid.lower())
    if '--worker' in argv:
        return worker(mod, json.loads(argv[argv.index('--worker') + 1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--replay' in argv:
        rep = json.load(open(argv[argv.index('--replay') + 1]))
        prepare_process()
        if hasattr(mod, 'setup'):
            mod.setup()
        so = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        scratch = tempfile.mkdtemp(prefix='rv_')
        os.chdir(scratch)
        r = run_case(mod, rep['seed'], rep['idx'], rep.get('tier', tier))
        sys.stdout = so
        os.chdir('/')
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
        print(json.dumps(r, indent=1))
        return 1 if r['status'] == 'violation' else 0
    return campaign(mod, pid, tier, argv)


def campaign(mod, pid, tier, argv):
    import shutil
    t0 = real_time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    lim = dict(cases=100000, budget=25, timeout=90)
    lim.update(mod.LIMITS.get(tier, {}))
    if tier == 'thorough' and 'thorough' not in mod.LIMITS:
        lim.update(mod.LIMITS.get('quick', {}))
        lim.update(cases=lim['cases'] * 20, budget=lim['budget'] * 10)
    if '--cases' in argv:
        lim['cases'] = int(argv[argv.index('--cases') + 1])
    if '--budget' in argv:
        lim['budget'] = float(argv[argv.index('--budget') + 1])
    nproc = min(NPROC, lim['cases'])
    findings = load_findings(pid)
    scratch = tempfile.mkdtemp(prefix='rv_%s_' % pid)
    deadline = t0 + lim['budget']
    base = dict(id=pid, seed=seed, tier=tier, cases=lim['cases'], step=nproc,
                deadline=deadline)
    results, viols, known, errors, timeouts, crashes = [], [], {}, [], [], {}
    procs = []
    try:
        procs = [Proc(dict(base, start=i), scratch) for i in range(nproc)]
        live = list(procs)
        stop_at = None
        while live:
            real_sleep(0.02)
            now = real_time()
            for pr in list(live):
                dead = pr.p.poll() is not None
                for m in pr.lines():
                    if 'begin' in m:
                        pr.current, pr.since = m['begin'], now
                    elif 'done' in m:
                        pr.finished = True
                    else:
                        pr.current = None
                        pr.since = now
                        results.append(m)
                        if m['status'] == 'violation':
                            if m['key'] in findings:
                                known[m['key']] = m
                            else:
                                viols.append(m)
                        elif m['status'] == 'error':
                            errors.append(m)
                if dead or pr.finished:
                    pr.kill()
                    live.remove(pr)
                    if not pr.finished and not stop_at:
                        # The process died: solver abort, memory, ...
                        idx = pr.current
                        if idx is None:
                            errors.append({'msg': 'worker died early'})
                            continue
                        crashes[idx] = crashes.get(idx, 0) + 1
                        nxt = idx if crashes[idx] < 2 else idx + nproc
                        if crashes[idx] == 2:
                            viols.append(dict(
                                idx=idx, seed=seed_of(seed, pid, idx),
                                status='violation', key='process crash',
                                msg='the process died twice in this case',
                                detail={}))
                        q = Proc(dict(base, start=nxt), scratch)
                        procs.append(q)
                        live.append(q)
                elif now - pr.since > lim['timeout']:
                    pr.kill()
                    live.remove(pr)
                    timeouts.append(pr.current)
                    if pr.current is None:
                        continue
                    # A case that hangs again when it is repeated hangs.
                    again = timeouts.count(pr.current) > 1
                    if again:
                        viols.append(dict(
                            idx=pr.current,
                            seed=seed_of(seed, pid, pr.current),
                            status='violation', key='nontermination',
                            msg='the case did not end within %d s, twice'
                            % lim['timeout'], detail={}))
                    if not again or now < deadline:
                        q = Proc(dict(
                            base, start=pr.current + (nproc if again else 0),
                            cases=lim['cases'] if now < deadline
                            else pr.current + 1,
                            deadline=deadline if now < deadline
                            else now + 1e6), scratch)
                        procs.append(q)
                        live.append(q)
            if viols and stop_at is None:
                stop_at = now + 3
            if errors and len(errors) > 50 and stop_at is None:
                stop_at = now
            if stop_at is not None and now > stop_at:
                break
            if now > deadline + 3 * lim['timeout'] + 30:
                timeouts.extend(p.current for p in live)
                break
    finally:
        for pr in procs:
            if pr.p.poll() is None:
                pr.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    if os.environ.get('RV_DEBUG'):
        for m in sorted(results, key=lambda m: -m['wall'])[:8]:
            print('  slow case: idx=%(idx)d wall=%(wall).1f' % m)
    counts, sigs, samples = {}, set(), []
    for m in results:
        for k, v in m.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(m.get('sigs', ()))
    for m in sorted(results, key=lambda m: m['idx']):
        if len(samples) < 6:
            samples.extend(m.get('samples', ())[:1])
    inconcl = [m for m in results if m['status'] == 'inconclusive']
    good = [m for m in results if m['status'] == 'ok']
    replays = []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    seen = set()
    for v in viols:
        if v['key'] in seen or len(replays) >= 5:
            continue
        seen.add(v['key'])
        path = os.path.join(VERIF, 'replays', '%s-%d.json' % (pid, v['seed']))
        json.dump(dict(v, property=pid, tier=tier), open(path, 'w'), indent=1)
        replays.append((v, path))
    ev = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(sigs),
            rule=' '.join(mod.RULE.split()), samples=samples or ['none'],
            observed_events=counts, held_cases=len(good),
            inconclusive_cases=len(inconcl), timed_out_cases=len(timeouts),
            harness_errors=len(errors), known_findings=sorted(known)),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(real_time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s tier=%s seed=%d cases=%d distinct=%d inconclusive=%d timeouts=%d'
          ' errors=%d wall=%.1fs' % (
              pid, tier, seed, len(results), len(sigs), len(inconcl),
              len(timeouts), len(errors), real_time() - t0))
    print('  observed: ' + ', '.join(
        '%s=%d' % kv for kv in sorted(counts.items())))
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (pid, findings[k]))
    if replays:
        for v, path in replays:
            print('  %s: %s' % (v['key'], short(v['msg'], 400)))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print('HARNESS ERROR: ' + json.dumps(errors[0])[:3000])
        return 2
    missing = {k: n for k, n in mod.MINIMUM.items() if counts.get(k, 0) < n}
    if missing or len(timeouts) + len(inconcl) > max(3, 0.1 * len(results)):
        print('INCONCLUSIVE: too few observations of %s' % missing)
        for m in inconcl[:3]:
            print('  ' + short(m['msg'], 300))
        return 2
    return 0
