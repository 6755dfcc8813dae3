"""C03: branching follows the statistics of the level, volume class and position class"""
import numpy as np

import melodist
from engine.harness import Ob
from . import casc
from .common import days, day_values

ASSUMPTIONS = ['the numbers drawn are arbitrary in [0, 1); which of them decides a particular interval is only '
               'used where all of them are equal or where the interval is the first one']

# outcome of every class, so that the class that was used can be read off the amounts
MAPS = {
    'a': [['01', 0, '10', 1], [2, 5, 3, 6]],
    'b': [[6, '10', 4, 0], ['01', 3, 1, '10']],
    'c': [[3, 2, 1, '01'], [5, '01', 0, 4]],
}


def rotate(m, k):
    flat = m[0] + m[1]
    flat = flat[k % 8:] + flat[:k % 8]
    return [flat[:4], flat[4:]]


def run(env, idx, vals, wet, stats, ref, draws):
    out = env.call(melodist.disagg_prec_cascade, env.series(vals, idx), stats)
    env.observe(out)
    boxes = casc.cascade(env, vals, wet, ref, 5, draws)
    want = casc.hours(boxes)
    got = list(out.array)
    env.check('one value for every hour', len(got) == len(want))
    for x, y in zip(got, want):
        env.check_eq('amounts follow the class of every interval', x, y)


def any_draw(env):
    d = env.real('d', 0.0, 1.0, open_lo=True, open_hi=True)
    env.draw_hook = lambda i: d
    return d


def classes(env, start, kinds, mapping, thresholds, lists=False, hi=60.0):
    """statistics that leave nothing to the draws; amounts arbitrary"""
    idx = days(start, len(kinds))
    vals, wet = [], []
    for i, k in enumerate(kinds):
        if k == '?':
            k = env.choice('kind%d' % i, ['wet', 'dry'])
        if k == 'sym':
            vals.append(env.real('amount%d' % i, 0.0, hi, open_lo=True))
        else:
            vals.append(6.5 + i if k == 'wet' else 0.0 if k == 'dry' else k)
        wet.append(k != 'dry')
    d = any_draw(env)
    if lists:
        cs = [casc.fixed_stats(rotate(mapping, 3 * l), [thresholds[l]]) for l in range(5)]
        ref = casc.listed(cs, 5)
    else:
        cs = casc.fixed_stats(mapping, thresholds)
        ref = casc.averaged(cs, 5)
    run(env, idx, vals, wet, cs, ref, lambda level, i: (d, d))


def thresholds(env, start, vals, mapping, which, lists=False):
    """threshold of the given levels arbitrary"""
    idx = days(start, len(vals))
    thr = [9.0, 11.0, 13.0, 17.0, 19.0]
    thr = [env.real('thr%d' % l, 0.0, 40.0) if l in which else thr[l] for l in range(5)]
    d = any_draw(env)
    if lists:
        cs = [casc.fixed_stats(rotate(mapping, 3 * l), [thr[l]], env) for l in range(5)]
        ref = casc.listed(cs, 5)
    else:
        cs = casc.fixed_stats(mapping, thr, env)
        ref = casc.averaged(cs, 5)
    run(env, idx, vals, [v > 0 for v in vals], cs, ref, lambda level, i: (d, d))


def simplex(env, tag, n):
    """n arbitrary probabilities that sum to one"""
    v = [env.real('%s%d' % (tag, i), 0.0, 1.0) for i in range(n - 1)]
    s = 0.0
    for x in v:
        s = x + s
    env.assume(s <= 1.0)
    return v + [1.0 - s]


def probabilities(env, start, vals, level, cell, lists, only_first=False):
    """arbitrary branching and weight probabilities in one class of one level"""
    idx = days(start, len(vals))
    if lists:
        cs = [casc.fixed_stats(MAPS['a'], [4.0 + l]) for l in range(5)]
        target = cs[5 - level]
        ref = casc.listed(cs, 5)
    else:
        cs = casc.fixed_stats(MAPS['a'], [4.0, 5.0, 6.0, 7.0, 8.0])
        target = cs
        ref = casc.averaged(cs, 5)
    p = simplex(env, 'p', 3)
    w = simplex(env, 'w', 7)
    for name, x in zip(('p01', 'p10', 'pxx'), p):
        a = getattr(target, name).tolist()
        a[cell[0]][cell[1]] = x
        setattr(target, name, env.nparray(a))
    a = target.wxx.tolist()
    for k in range(7):
        a[k][cell[0]][cell[1]] = w[k]
    target.wxx = env.nparray(a)
    if only_first:
        u = env.real('u', 0.0, 1.0, open_lo=True, open_hi=True)
        v = env.real('v', 0.0, 1.0, open_lo=True, open_hi=True)
        env.draw_hook = lambda i: u if i == 0 else v
        draws = lambda lev, i: (u, v) if (lev, i) == (1, 0) else (v, v)
    else:
        d = any_draw(env)
        draws = lambda lev, i: (d, d)
    run(env, idx, vals, [x > 0 for x in vals], cs, ref, draws)


def sample(env, start, vals, lo, hi):
    """the sample statistics with one arbitrary number for all draws"""
    idx = days(start, len(vals))
    d = env.real('d', lo, hi, open_lo=True, open_hi=True)
    env.draw_hook = lambda i: d
    cs = melodist.cascade.CascadeStatistics()
    cs.fill_with_sample_data()
    run(env, idx, vals, [x > 0 for x in vals], cs, casc.averaged(cs, 5), lambda lev, i: (d, d))


def obligations(tier, seed):
    obs = []
    T = [2.2, 3.9, 6.1, 8.3, 12.7]
    b = 'statistics under which every class splits in its own way; '
    for name, m in MAPS.items():
        for lists in (False, True):
            tag = name + ('-levels' if lists else '')
            obs.append(Ob('patterns-' + tag, classes, dict(
                start='2016-02-27', kinds=['?', '?', '?', '?'], mapping=m, thresholds=T, lists=lists),
                bounds=b + '4 days, each wet (fixed amount) or dry; draws arbitrary'))
            for i, kinds in enumerate((['sym', 'dry'], ['sym', 7.3], [7.3, 'sym'], ['dry', 'sym'],
                                       [9.1, 'sym', 5.2], ['dry', 'sym', 'dry'], ['dry', 'sym', 30.5])):
                obs.append(Ob('amount-%s-%d' % (tag, i), classes, dict(
                    start='2015-12-30', kinds=kinds, mapping=m, thresholds=T, lists=lists),
                    bounds=b + '%d days, amount of one day arbitrary up to 60; draws arbitrary' % len(kinds)))
            for lev in range(5):
                obs.append(Ob('threshold-%s-%d' % (tag, lev), thresholds, dict(
                    start='2015-12-30', vals=[0.0, 23.0, 14.0], mapping=m, which=[lev], lists=lists),
                    bounds=b + '3 days with fixed amounts; threshold of one level arbitrary'))
            obs.append(Ob('thresholds-' + tag, thresholds, dict(
                start='2015-12-30', vals=[0.0, 23.0, 0.0], mapping=m, which=[1, 2, 3, 4], lists=lists),
                bounds=b + '3 days with fixed amounts; thresholds of four levels arbitrary', tier='thorough',
                max_paths=20000, budget=900))
    pb = 'branching and weight probabilities of one class arbitrary; '
    pos = {'isolated': [7.7, 0.0], 'start': [7.7, 3.3], 'end': [3.3, 7.7], 'enclosed': [3.3, 7.7, 2.2]}
    col = {'start': 0, 'enclosed': 1, 'end': 2, 'isolated': 3}
    for name, vals in pos.items():
        for above in (0, 1):
            v = [x * (0.5 if not above else 2.0) for x in vals]
            obs.append(Ob('probabilities-%s-%s' % (name, 'above' if above else 'below'), probabilities, dict(
                start='2016-01-01', vals=v, level=1, cell=(above, col[name]), lists=True),
                bounds=pb + 'coarsest level; one arbitrary number for all draws'))
            if name in ('isolated', 'start'):
                obs.append(Ob('two-draws-%s-%s' % (name, 'above' if above else 'below'), probabilities, dict(
                    start='2016-01-01', vals=v, level=1, cell=(above, col[name]), lists=True, only_first=True),
                    bounds=pb + 'coarsest level; first draw and the others arbitrary'))
    for lev in (2, 3, 4, 5):
        obs.append(Ob('probabilities-level%d' % lev, probabilities, dict(
            start='2016-01-01', vals=[9.0, 21.0], level=lev, cell=(1, 1), lists=True),
            bounds=pb + 'level %d; one arbitrary number for all draws' % lev))
    for i, (lo, hi) in enumerate(((0.0, 0.25), (0.25, 0.5), (0.5, 0.75), (0.75, 1.0))):
        obs.append(Ob('sample-%d' % i, sample, dict(start='2016-01-01', vals=[0.0, 21.0, 4.0], lo=lo, hi=hi),
                      bounds='sample statistics, 3 days with fixed amounts, one arbitrary number in (%s, %s) '
                             'for all draws' % (lo, hi), budget=200))
    return obs
