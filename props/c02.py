"""C02: sub-hourly cascade disaggregation conserves each day's precipitation"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from . import casc
from .common import day_values, sample_stats, total, NAN

PATTERNS = {
    'second': [0.0],
    'first': [0.59, 0.31],
    'mixed': [0.0, 0.59, 0.33, 0.05, 0.62, 0.2, 0.58],
    'split': [0.95, 0.5, 0.0, 0.99, 0.1, 0.59, 0.93, 0.9],
}


def mass(env, dates, kinds, level, pattern, symbolic_at=(), lo=0.0, hi=100.0, lists=False):
    idx = pd.DatetimeIndex(dates)
    vals, ks = [], []
    for i, k in enumerate(kinds):
        if k == '?':
            k = env.choice('kind%d' % i, ['wet', 'dry', 'nan'])
        ks.append(k)
        if isinstance(k, float):
            vals.append(k)
        elif k == 'wet':
            vals.append(env.real('amount%d' % i, lo, hi, open_lo=True))
        else:
            vals.append(0.0 if k == 'dry' else NAN)
    p = PATTERNS[pattern]
    env.draw_hook = lambda i: None if i in symbolic_at else p[i % len(p)]
    stats = sample_stats(level)
    if lists:
        stats = []
        for l in range(level):
            c = sample_stats()
            c.threshold = c.threshold[:1] * (1.0 + l)
            stats.append(c)
    out = env.call(melodist.disagg_prec_cascade, env.series(vals, idx), stats, hourly=False, level=level)
    env.observe(out)
    expected = [d + pd.Timedelta(minutes=5 * i) for d in idx for i in range(288)]
    env.check('288 values for every day and no other day', list(out.index) == expected)
    for d, a, k in zip(idx, vals, ks):
        v = day_values(out, d)
        if k == 'nan':
            env.check('missing day stays missing', all(isnan(x) for x in v))
        elif k == 'dry':
            for x in v:
                env.check_eq('dry day stays dry', x, 0.0)
        else:
            for x in v:
                env.check('no negative amounts', env.le(0.0, x))
            env.check_eq('values add up to the daily amount', total(v), a)


def whole(env, dates, level, outcome, lists):
    """statistics that always send the whole amount to the same half: it arrives in one interval"""
    idx = pd.DatetimeIndex(dates)
    vals = [env.real('amount%d' % i, 0.0, 100.0, open_lo=True) for i in range(len(idx))]
    d = env.real('d', 0.0, 1.0, open_lo=True, open_hi=True)
    env.draw_hook = lambda i: d
    m = [[outcome] * 4] * 2
    stats = casc.fixed_stats(m, [1.0] * level)
    if lists:
        stats = [casc.fixed_stats(m, [1.0]) for _ in range(level)]
    out = env.call(melodist.disagg_prec_cascade, env.series(vals, idx), stats, hourly=False, level=level)
    at = 0 if outcome == '10' else 287
    for day, a in zip(idx, vals):
        v = day_values(out, day)
        env.check('288 values for every day and no other day', len(v) == 288)
        for i, x in enumerate(v):
            env.check_eq('the amount arrives in the chosen interval', x, a if i == at else 0.0)


def obligations(tier, seed):
    obs = []
    two = ['2016-02-28', '2016-02-29']
    gap = ['2015-12-30', '2016-01-02', '2016-01-03']
    for level in (9, 10, 11):
        for pat in PATTERNS:
            heavy = pat == 'split' and level > 9
            obs.append(Ob('mass%d-%s' % (level, pat), mass, dict(
                dates=two, kinds=['wet', 7.3], level=level, pattern=pat, symbolic_at=(0, 1), hi=30.0),
                bounds='2 days, one amount and the first two draws arbitrary, other draws on a fixed pattern',
                tier='thorough' if heavy else 'quick', budget=800 if heavy else 200))
        obs.append(Ob('missing%d' % level, mass, dict(
            dates=gap, kinds=['?', '?', '?'], level=level, pattern='second', lo=200.0, hi=500.0),
            bounds='3 days with a gap of two days, each wet, dry or missing; amounts arbitrary'))
        obs.append(Ob('lists%d' % level, mass, dict(
            dates=gap, kinds=['wet', 'nan', 'wet'], level=level, pattern='second', lists=True),
            bounds='3 days with a gap, one statistics object per level, amounts arbitrary'))
        for o in ('01', '10'):
            obs.append(Ob('whole%d-%s' % (level, o), whole, dict(dates=gap, level=level, outcome=o, lists=o == '01'),
                          bounds='3 days with a gap; all amounts and draws arbitrary, no wet/wet splits'))
    obs.append(Ob('same-day9', mass, dict(
        dates=['2016-01-31', '2016-03-30', '2016-03-31'], kinds=['?', 'wet', '?'], level=9, pattern='second',
        lo=200.0, hi=500.0),
        bounds='3 days of two months with the same day of the month, two of them wet, dry or missing'))
    return obs
