"""Virtual clock. The clock functions of the time module are replaced before
the code under test is imported, so that it sees virtual time whichever
function it reads and however it imported it."""
import time as _t
import timeit

_REAL = {n: getattr(_t, n) for n in
         ('time', 'monotonic', 'perf_counter', 'process_time', 'time_ns',
          'monotonic_ns', 'perf_counter_ns')}
_state = {'virtual': False, 'now': 0.0, 'reads': 0, 'tick': 0.0}


def _mk(name):
    orig = _REAL[name]
    ns = name.endswith('_ns')

    def clock():
        if not _state['virtual']:
            return orig()
        _state['reads'] += 1
        _state['now'] += _state['tick']
        return int(_state['now'] * 1e9) if ns else _state['now']
    clock.__name__ = name
    return clock


def install():
    for n in _REAL:
        setattr(_t, n, _mk(n))
    timeit.default_timer = _t.perf_counter


def virtual(start, tick=0.0):
    """tick: virtual seconds that pass with every reading of the clock."""
    _state.update(virtual=True, now=float(start), reads=0, tick=float(tick))


def reads():
    return _state['reads']


def real():
    _state['virtual'] = False


def advance(dt):
    _state['now'] += dt


def now():
    return _state['now']
