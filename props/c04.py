"""C04: cascade statistics are the relative frequencies of the observed branching"""
import contextlib
import io

import numpy as np
import pandas as pd

import melodist
from engine.harness import Ob
from . import casc

# pairs (first half, second half); the blocks cover the four positions below and above the median
LOW = [(0.0, 1.0), (0.7, 0.4), (0.5, 0.9), (1.2, 0.0)]
HIGH = [(0.0, 9.0), (9.0, 0.5), (2.0, 8.0), (7.0, 4.5)]
DRY = (0.0, 0.0)


def base(low=LOW, high=HIGH):
    """isolated below, isolated above, three wet pairs below and three above"""
    return [DRY, low[0], DRY, high[0], DRY, low[1], low[2], low[3], DRY, high[1], high[2], high[3], DRY]


NOXX = base([(0.0, 1.0), (0.7, 0.0), (0.5, 0.0), (1.2, 0.0)])
UNSEEN = base()[:9] + [DRY, HIGH[1], HIGH[2], DRY]
SERIES = {'full': base(), 'noxx': NOXX, 'unseen': UNSEEN}


def run(env, flat, q):
    df = env.frame(dict(precip=flat), pd.date_range('2016-02-28', periods=len(flat), freq='h'))
    with contextlib.redirect_stdout(io.StringIO()):
        cs, sums = env.call(melodist.aggregate_precipitation, df, percentile=q)
    want, thr, p = casc.aggregate(env, flat, q)
    got = list(sums.precip.array)
    env.observe(got)
    env.check('one value per pair', len(got) == len(want))
    for x, y in zip(got, want):
        env.check_eq('pair sums', x, y)
    env.check('one threshold', len(cs.threshold) == 1)
    env.check_eq('threshold is the percentile of the wet pair sums', cs.threshold[0], thr)
    casc.check_stats(env, 'relative frequencies', cs, p)
    env.check('percentile is kept', float(cs.percentile) == float(q))
    one = np.asarray(cs.p01 + cs.p10 + cs.pxx, dtype=object)
    for x in one.ravel():
        env.check_eq('branching probabilities of a class sum to one', x, 1.0, tol=1e-6)
    w = np.asarray(cs.wxx, dtype=object).sum(axis=0)
    for x in w.ravel():
        env.check_eq('weights of a class sum to one', x, 1.0, tol=1e-6)


def half(env, name, hi):
    if env.choice(name + '_dry', [True, False]):
        return 0.0
    return env.real(name, 0.01, hi)


def pairs(env, series, at, q, insert=True, hi=20.0, odd=False):
    """arbitrary pairs at the given positions of a fixed series"""
    ps = list(SERIES[series])
    for k, i in enumerate(at):
        p = (half(env, 'a%d' % k, hi), half(env, 'b%d' % k, hi))
        if insert:
            ps.insert(i, p)
        else:
            ps[i] = p
    flat = [x for p in ps for x in p]
    if odd:
        flat.append(env.real('last', 0.0, 50.0))
    run(env, flat, q)


def obligations(tier, seed):
    obs = []
    n = len(base())
    places = dict(first=0, isolated=1, before=5, inside=6, behind=8, high=10, last=n)
    b = 'fixed series of %d pairs covering all classes, one further pair with halves dry or arbitrary' % n
    for name, i in places.items():
        for q in (50, 30):
            obs.append(Ob('insert-%s-%d' % (name, q), pairs, dict(series='full', at=[i], q=q), bounds=b))
    obs.append(Ob('replace', pairs, dict(series='full', at=[6], q=50, insert=False), bounds=b))
    obs.append(Ob('percentile-fraction', pairs, dict(series='full', at=[1], q=62.5), bounds=b))
    obs.append(Ob('odd', pairs, dict(series='full', at=[1], q=50, odd=True),
                  bounds=b + '; odd number of values'))
    for s in ('noxx', 'unseen'):
        obs.append(Ob(s, pairs, dict(series=s, at=[1], q=50),
                      bounds='fixed series without wet/wet pairs in some class or without some class, one '
                             'arbitrary pair'))
        obs.append(Ob(s + '-inside', pairs, dict(series=s, at=[6], q=50),
                      bounds='fixed series without wet/wet pairs in some class or without some class, one '
                             'arbitrary pair'))
    obs.append(Ob('two-pairs', pairs, dict(series='full', at=[1, 7], q=50), bounds=b + ' (two of them)',
                  tier='thorough', max_paths=60000, budget=1500))
    obs.append(Ob('two-last', pairs, dict(series='full', at=[n, n + 1], q=50), bounds=b + ' (two of them)',
                  tier='thorough', max_paths=60000, budget=1500))
    return obs
