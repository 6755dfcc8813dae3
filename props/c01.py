"""C01: hourly cascade disaggregation conserves each day's precipitation"""
import numpy as np
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import days, day_values, expected_hours, sample_stats, total, NAN

# constant draws for the boxes that are not symbolic: 0/1, 1/0 and x/x outcomes of all weights
PATTERNS = {
    'second': [0.0],
    'first': [0.59, 0.31],
    'mixed': [0.0, 0.59, 0.33, 0.05, 0.62, 0.2, 0.58],
    'split': [0.95, 0.5, 0.99, 0.1, 0.93, 0.9],
}


def fix_draws(env, symbolic_at, pattern):
    """draws at the given positions are arbitrary, the others follow the pattern"""
    p = PATTERNS[pattern]

    def hook(i):
        return None if i in symbolic_at else p[i % len(p)]

    env.draw_hook = hook


def check_days(env, out, idx, amounts, kinds):
    env.check('24 values for every day', list(out.index) == expected_hours(idx))
    for d, a, k in zip(idx, amounts, kinds):
        v = day_values(out, d)
        if k == 'nan':
            env.check('missing day stays missing', all(isnan(x) for x in v))
        elif k == 'dry':
            for x in v:
                env.check_eq('dry day stays dry', x, 0.0)
        else:
            for x in v:
                env.check('no negative amounts', env.le(0.0, x))
            env.check_eq('hourly values add up to the daily amount', total(v), a)


def mass(env, start, kinds, lo, hi, symbolic_at, pattern, lists=False, dates=None, via='function'):
    idx = days(start, len(kinds)) if dates is None else pd.DatetimeIndex(dates)
    vals = []
    for i, k in enumerate(kinds):
        if k == '?':
            k = env.choice('kind%d' % i, ['wet', 'dry', 'nan'])
            kinds = kinds[:i] + [k] + kinds[i + 1:]
        if isinstance(k, float):
            vals.append(k)
        elif k == 'wet':
            vals.append(env.real('amount%d' % i, lo, hi, open_lo=True))
        else:
            vals.append(0.0 if k == 'dry' else NAN)
    fix_draws(env, symbolic_at, pattern)
    casc = sample_stats()
    if lists:
        casc = []
        for l in range(5):
            c = sample_stats()
            c.threshold = np.array([1.0 + 1.5 * l])
            casc.append(c)
    s = env.series(vals, idx)
    before = list(s.array)
    if via == 'function':
        out = env.call(melodist.disagg_prec_cascade, s, casc)
    else:
        out = env.call(melodist.disagg_prec, s, method='cascade', cascade_options=casc)
    env.observe(out)
    check_days(env, out, idx, vals, kinds)
    for x, y in zip(before, list(s.array)):
        env.check('input left unchanged', (isnan(x) and isnan(y)) or x is y or env.eq(x, y))


def stats_any(env, start, n):
    """arbitrary valid branching probabilities and thresholds in the cells"""
    idx = days(start, n)
    vals = [env.real('amount%d' % i, 0.0, 200.0, open_lo=True) for i in range(n)]
    casc = sample_stats()
    t = env.real('thr', 0.0, 100.0)
    casc.threshold = env.array([t] * 5)
    a = env.real('p01', 0.0, 1.0)
    b = env.real('p10', 0.0, 1.0)
    env.assume(a + b <= 1.0)
    casc.p01 = env.nparray([[a] * 4] * 2)
    casc.p10 = env.nparray([[b] * 4] * 2)
    casc.pxx = env.nparray([[1.0 - a - b] * 4] * 2)
    d = env.real('d', 0.0, 1.0, open_hi=True)
    env.draw_hook = lambda i: d if i == 0 else 0.0
    out = env.call(melodist.disagg_prec_cascade, env.series(vals, idx), casc)
    env.observe(out)
    check_days(env, out, idx, vals, ['wet'] * n)


def shifted(env, start, n, shift, via='function', missing=None):
    """a shift displaces the whole hourly series by that many hours"""
    idx = days(start, n)
    vals = [NAN if i == missing else env.real('amount%d' % i, 30.0, 60.0) for i in range(n)]
    casc = sample_stats()
    fix_draws(env, (0,), 'mixed')

    def run(**k):
        s = env.series(vals, idx)
        if via == 'function':
            return env.call(melodist.disagg_prec_cascade, s, casc, **k)
        if via == 'disagg_prec':
            return env.call(melodist.disagg_prec, s, method='cascade', cascade_options=casc, **k)
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=pd.DataFrame({'precip': s}))
        st.statistics.precip.months = [np.arange(12) + 1]
        st.statistics.precip.stats = [casc]
        env.call(st.disaggregate_precipitation, method='cascade', **k)
        return st.data_disagg.precip

    a = run()
    env.rewind_draws()
    b = run(shift=shift)
    av, bv = list(a.array), list(b.array)
    env.check('same hours', list(b.index) == expected_hours(idx))
    for i in range(len(bv)):
        j = i - shift
        if 0 <= j < len(av):
            env.check('values displaced by the shift', isnan(av[j]) == isnan(bv[i]))
            if not isnan(av[j]) and not isnan(bv[i]):
                env.check_eq('values displaced by the shift', bv[i], av[j])
        else:
            env.check('no values enter at the edge', isnan(bv[i]))


def obligations(tier, seed):
    obs = []
    q = '2 to 4 days; daily amounts symbolic; listed draws symbolic, the others on a fixed pattern'
    for pat in PATTERNS:
        for nk, kinds in (('a', ['wet', 7.3]), ('b', [40.0, 'wet'])):
            for at in ([0, 1], [2, 3], [5, 6]):
                obs.append(Ob('mass-%s-%s-draws%d' % (pat, nk, at[0]), mass, dict(
                    start='2016-02-28', kinds=kinds, lo=0.0, hi=100.0, symbolic_at=at,
                    pattern=pat), bounds=q))
        obs.append(Ob('mass-%s-both' % pat, mass, dict(
            start='2015-12-31', kinds=['wet', 'wet'], lo=0.0, hi=60.0, symbolic_at=[0, 1],
            pattern=pat), bounds=q, tier='thorough', max_paths=40000, budget=1500))
    obs.append(Ob('mass-lists', mass, dict(start='2015-12-31', kinds=['wet', 'dry', 'wet'], lo=0.0,
                                           hi=50.0, symbolic_at=[0, 1], pattern='mixed', lists=True),
                  bounds=q + '; one statistics object per level'))
    obs.append(Ob('missing-and-dry', mass, dict(
        start='2016-02-27', kinds=['?', '?', '?', '?'], lo=200.0, hi=500.0, symbolic_at=[],
        pattern='mixed'), bounds='4 days, each wet, dry or missing (all 81 patterns), amounts symbolic'))
    obs.append(Ob('any-statistics', stats_any, dict(start='2016-12-30', n=2),
                  bounds='2 days; branching probabilities, thresholds and the first draw symbolic'))
    same_day = ['2015-03-31', '2015-05-31', '2015-12-31', '2016-03-30', '2016-03-31']
    obs.append(Ob('same-day', mass, dict(
        start=None, dates=same_day, kinds=['?', 10.5, '?', 250.0, '?'], lo=200.0, hi=500.0, symbolic_at=[],
        pattern='second'),
        bounds='5 days with equal days of month and of the year in different months and years, three of them '
               'wet, dry or missing, amounts symbolic'))
    obs.append(Ob('same-day-disagg_prec', mass, dict(
        start=None, dates=same_day[:3], kinds=['?', 'wet', '?'], lo=200.0, hi=500.0, symbolic_at=[0],
        pattern='mixed', via='disagg_prec'),
        bounds='3 days of different months, two of them wet, dry or missing, amounts symbolic'))
    for i, miss in enumerate((None, 1, 0)):
        obs.append(Ob('shift-missing-%d' % i, shifted, dict(
            start='2016-12-30', n=3, shift=(31, 3, -26)[i], via=('disagg_prec', 'station', 'function')[i],
            missing=miss), bounds='3 days, shift %d' % (31, 3, -26)[i]))
    for sh in (7, -5):
        obs.append(Ob('shift%+d' % sh, shifted, dict(start='2016-02-28', n=2, shift=sh),
                      bounds='2 days, shift %d' % sh))
    return obs
