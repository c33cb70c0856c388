"""C24: running statistics against exact rational arithmetic."""
import math
from fractions import Fraction

import numpy as np

RULE = """Random interleavings of pushes (scales from 1e-9 to 1e12, constant,
nearly constant with large offsets, integers), clears and queries on several
statistics objects; every query is compared with exact rational statistics of
the values pushed since the last clear. Non-trivial: at least two values;
distinct by (values, object)."""
ASSUMPTIONS = ["rounding tolerance proportional to the conditioning of the "
               "variance"]
LIMITS = {'quick': dict(cases=12000, budget=100),
          'thorough': dict(cases=300000, budget=600)}
MINIMUM = {'queries': 50000, 'clears': 5000, 'queries after a clear': 5000,
           'two or more values': 20000, 'fewer than two values': 5000,
           'long sequences': 30}


def judge(cx, s, vals):
    n = len(vals)
    cx.count('queries')
    cx.check(s.num_data_values() == n, 'number of values', '%s after %d' % (
        s.num_data_values(), n))
    mean, var, sd = s.mean(), s.variance(), s.standard_deviation()
    if n == 0:
        cx.count('fewer than two values')
        cx.check(mean == 0 and var == 0 and sd == 0, 'statistics of nothing',
                 '%s %s %s' % (mean, var, sd))
        return
    fr = [Fraction(v) for v in vals]
    m = sum(fr) / n
    big = max(abs(float(v)) for v in vals)
    cx.check(abs(mean - float(m)) <= 1e-14 * (n + 10) * big, 'mean',
             '%r instead of %r of %s' % (mean, float(m), vals))
    if n < 2:
        cx.count('fewer than two values')
        cx.check(var == 0 and sd == 0, 'variance of one value',
                 '%s %s' % (var, sd))
        return
    cx.count('two or more values')
    v = float(sum((x - m) ** 2 for x in fr) / (n - 1))
    tol = 1e-11 * v + 1e-14 * (n + 10) * big * math.sqrt(v) + \
        (1e-15 * (n + 10) * big) ** 2
    cx.check(var >= 0 and abs(var - v) <= tol, 'variance',
             '%r instead of %r of %s' % (var, v, vals))
    cx.check(abs(sd - math.sqrt(var)) <= 1e-12 * (1e-300 + sd),
             'standard deviation', '%r for variance %r' % (sd, var))
    cx.nontrivial(vals)


def case(cx):
    from col_gen_estimator import RunningStat
    r = cx.rng
    objs = [(RunningStat(), []) for _ in range(cx.int(1, 4))]
    gens = []
    for _ in objs:
        kind = cx.pick(['normal', 'offset', 'constant', 'int', 'tiny', 'huge',
                        'mixed'])
        off = float(r.randn() * 10 ** cx.int(2, 9))
        gens.append({
            'normal': lambda: float(r.randn()),
            'offset': lambda off=off: off + float(r.randn()),
            'constant': lambda off=off: off,
            'int': lambda: int(r.randint(-50, 50)),
            'tiny': lambda: float(r.randn()) * 1e-9,
            'huge': lambda: float(r.randn()) * 1e12,
            'mixed': lambda: float(r.randn()) * 10. ** r.randint(-6, 7),
        }[kind])
    pc = cx.pick([0., .02, .1, .3])
    steps, share = cx.int(5, 60), .5
    if cx.flip(.04):
        steps, share, pc = cx.int(200, 900), .01, cx.pick([0., .003])
        objs = objs[:1]
        cx.count('long sequences')
    for _ in range(steps):
        i = cx.int(0, len(objs) - 1)
        s, vals = objs[i]
        if cx.flip(pc):
            cx.call('clear', s.clear)
            del vals[:]
            cx.count('clears')
            judge(cx, s, vals)
            cx.count('queries after a clear')
        else:
            x = gens[i]()
            cx.call('push', s.push, x)
            vals.append(x)
        if cx.flip(share):
            j = cx.int(0, len(objs) - 1)
            judge(cx, *objs[j])
    for s, vals in objs:
        judge(cx, s, vals)
    cx.sample([v for _, v in objs][0][:8])
