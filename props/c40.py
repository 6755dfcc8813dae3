"""C40: the series of the cascade levels form a consistent hierarchy"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .c02 import PATTERNS
from .common import NAN, check_unchanged, sample_stats, same, snapshot, total


def hierarchy(env, dates, kinds, level, pattern, symbolic_at=(), lo=0.0, hi=100.0, lists=False, shift=0):
    """level None: hourly"""
    idx = pd.DatetimeIndex(dates)
    vals = []
    for i, k in enumerate(kinds):
        if k == '?':
            k = env.choice('kind%d' % i, ['wet', 'dry', 'nan'])
        vals.append(k if isinstance(k, float) else env.real('amount%d' % i, lo, hi, open_lo=True) if k == 'wet'
                    else 0.0 if k == 'dry' else NAN)
    p = PATTERNS[pattern]
    env.draw_hook = lambda i: None if i in symbolic_at else p[i % len(p)]
    nlev = level or 5
    stats = sample_stats(nlev)
    if lists:
        stats = []
        for l in range(nlev):
            c = sample_stats()
            c.threshold = c.threshold[:1] * (1.0 + l)
            stats.append(c)
    k = {} if level is None else dict(hourly=False, level=level)
    if shift:
        k['shift'] = shift
    daily = env.series(vals, idx)
    snap = snapshot(daily)
    out = env.call(melodist.disagg_prec_cascade, daily, stats, test=True, **k)
    check_unchanged(env, 'daily input left unchanged', daily, snap)
    env.check('all levels and the results', len(out) == nlev + 2)
    if len(out) != nlev + 2:
        return
    levels = [list(x) for x in out[:nlev]]
    env.observe(levels[1])
    parents = [0.0 if isnan(x) else x for x in vals]
    for l, vs in enumerate(levels):
        env.check('twice the number of intervals', len(vs) == len(idx) * 2 ** (l + 1))
        if len(vs) != 2 * len(parents):
            return
        for i, a in enumerate(parents):
            x, y = vs[2 * i], vs[2 * i + 1]
            if isnan(x) or isnan(y):
                env.check('value for every interval', False)
                return
            env.check('no negative amounts', env.and_(env.le(0.0, x), env.le(0.0, y)))
            env.check_eq('halves add up', x + y, a)
        parents = vs
    fine = list(out[nlev])
    if level is None:
        env.check('quarters of an hour', len(fine) == 3 * len(parents))
        if len(fine) != 3 * len(parents):
            return
        for i, x in enumerate(fine):
            env.check_eq('three equal parts', 3 * x, parents[i // 3])
    else:
        env.check('finest intervals', len(fine) == len(parents))
        if len(fine) != len(parents):
            return
        for x, y in zip(fine, parents):
            env.check_eq('finest intervals', x, y)
    final = out[nlev + 1]
    env.rewind_draws()
    plain = env.call(melodist.disagg_prec_cascade, env.series(vals, idx), stats, **k)
    env.check('same result as without the levels', list(final.index) == list(plain.index))
    for x, y in zip(final.array, plain.array):
        env.check('same result as without the levels', same(env, x, y))
    if not shift:
        per = len(final) // len(idx)
        fv = list(final.array)
        for d in range(len(idx)):
            if isnan(vals[d]):
                continue
            day = fv[per * d: per * d + per]
            n = len(fine) // len(idx)
            env.check('missing only on missing days', not any(isnan(x) for x in day))
            if any(isnan(x) for x in day):
                continue
            env.check_eq('result adds up to the finest level', total(day), total(fine[n * d: n * d + n]))
            if level is None:
                for h in range(24):
                    env.check_eq('hour of four quarters', day[h], total(fine[n * d + 4 * h: n * d + 4 * h + 4]))


def obligations(tier, seed):
    obs = []
    two = ['2016-02-28', '2016-02-29']
    gap = ['2015-12-30', '2016-01-02', '2016-01-03']
    b = '%d days, amounts arbitrary, draws %s arbitrary, others on a fixed pattern'
    for level in (None, 9, 10, 11):
        t = 'hourly' if level is None else '%d' % level
        for pat in PATTERNS:
            if pat == 'split' and level is not None:
                continue
            obs.append(Ob('%s-%s' % (t, pat), hierarchy, dict(
                dates=two, kinds=['wet', 7.3], level=level, pattern=pat, symbolic_at=(0, 1), hi=30.0),
                bounds=b % (2, (0, 1)), budget=250,
                tier='thorough' if pat == 'first' and level in (10, 11) else 'quick'))
        obs.append(Ob('%s-missing' % t, hierarchy, dict(
            dates=gap, kinds=['?', 'wet', '?'], level=level, pattern='second', lo=200.0, hi=500.0),
            bounds='3 days with a gap, two of them wet, dry or missing; amounts arbitrary'))
        obs.append(Ob('%s-lists' % t, hierarchy, dict(
            dates=gap, kinds=['wet', 'nan', 'wet'], level=level, pattern='second', lists=True, lo=200.0, hi=400.0),
            bounds='3 days, statistics for each level; amounts arbitrary'))
    obs.append(Ob('shift', hierarchy, dict(dates=two, kinds=['wet', 7.3], level=None, pattern='mixed', shift=7,
                                           lo=200.0, hi=300.0), bounds='2 days, result shifted by 7 hours'))
    return obs
