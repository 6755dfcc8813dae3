"""C05: cascade statistics combine levels by size and keep seasons apart"""
import contextlib
import io

import numpy as np
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from . import casc
from .common import NAN, snapshot


def rain(m, seed):
    """32 m hourly values in which every class occurs on all five levels"""
    n = 32 * m
    r = np.random.RandomState(seed)
    wet = r.rand(m) < 0.55
    p = (np.repeat(wet, 32) * np.repeat(r.rand(n // 8) < 0.6, 8) * np.repeat(r.rand(n // 4) < .8, 4)
         * np.repeat(r.rand(n // 2) < .8, 2) * (r.rand(n) < .7))
    v = p * np.round(r.gamma(.6, 2., n) * np.repeat(r.gamma(.5, 2, m), 32) * 64 + 6) / 64  # sums without rounding
    return [float(x) for x in v]


A, B = (12, 1639), (16, 5)


def dry_block(vals, at):
    """position of a dry hour in a dry stretch, counted from at"""
    while not all(vals[i] == 0.0 for i in range(at, at + 3)):
        at += 1
    return at + 1


def reference(env, vals, q, nlev):
    """level statistics from fine to coarse, number of intervals of each level"""
    out, v = [], vals
    for _ in range(nlev):
        v, thr, p = casc.aggregate(env, v, q)
        out.append((len(v), thr, p))
    return out


def build(env, blocks, seasons, avg, q, at, wet=True, missing=(), hi=3.0, nlev=5, sub=False, via='function'):
    """blocks: month -> series; some of the values are arbitrary, some are missing"""
    idx, vals, months = [], [], []
    for start, series in blocks:
        t = pd.date_range(start, periods=len(series), freq='5min' if sub else 'h')
        idx += list(t)
        vals += series
        months += [x.month for x in t]
    for k, i in enumerate(at):
        if wet == '?':
            kind = env.choice('kind%d' % k, ['wet', 'dry', 'nan'])
        else:
            kind = 'wet'
        vals[i] = env.real('v%d' % k, 0.01, hi) if kind == 'wet' else 0.0 if kind == 'dry' else NAN
    for i in missing:
        vals[i] = NAN
    df = env.frame(dict(precip=vals), pd.DatetimeIndex(idx))
    before = snapshot(df)
    ms = [np.array(s) for s in seasons] if seasons is not None else None
    with contextlib.redirect_stdout(io.StringIO()):
        if via == 'function':
            res = env.call(melodist.build_casc, df, hourly=not sub, level=nlev if sub else 9, months=ms,
                           avg_stats=avg, percentile=q)
        else:
            st = env.call(melodist.StationStatistics, data=df, lon=11.0, lat=47.0, timezone=1)
            k = {} if ms is None else dict(months=ms)
            if not avg:
                k['avg_stats'] = False
            if q != 50:
                k['percentile'] = q
            env.call(st.calc_precipitation_stats, **k)
            res = st.precip.stats
            want = [list(range(1, 13))] if seasons is None else [list(s) for s in seasons]
            env.check('seasons of the statistics', [[int(m) for m in s] for s in st.precip.months] == want)
    after = snapshot(df)
    env.check('observations left unchanged', after['index'] == before['index'] and list(after['cols']) == list(before['cols']))
    for x, y in zip(before['cols']['precip'], after['cols']['precip']):
        env.check('observations left unchanged', (isnan(x) and isnan(y)) or x is y or env.eq(x, y))
    if seasons is None:
        seasons = [list(range(1, 13))]
    env.check('one result per season', len(res) == len(seasons))
    for s, r in zip(seasons, res):
        sub_vals = [0.0 if isnan(v) else v for v, m in zip(vals, months) if m in s]
        ref = reference(env, sub_vals, q, nlev)
        if avg:
            n = float(sum(k for k, _, _ in ref))
            p = [sum(k * x[i] for k, _, x in ref) / n for i in range(4)]
            casc.check_stats(env, 'average of the level statistics weighted with their size', r, p)
            env.check('one threshold per level', len(r.threshold) == nlev)
            for x, (_, t, _) in zip(r.threshold, ref):
                env.check_eq('thresholds from fine to coarse', x, t)
            env.check('percentile is kept', float(r.percentile) == float(q))
        else:
            env.check('one element per level', len(r) == nlev)
            for x, (_, t, p) in zip(r, ref):
                casc.check_stats(env, 'level statistics from fine to coarse', x, p)
                env.check_eq('threshold of the level', x.threshold[0], t)
                env.check('percentile is kept', float(x.percentile) == float(q))


def obligations(tier, seed):
    obs = []
    a, b = rain(*A), rain(*B)
    one = [('2016-03-01', b)]
    two = [('2016-01-01', a), ('2016-02-01', b)]
    wetpos = [i for i, v in enumerate(b) if v > 0]
    drypos = dry_block(b, 0)
    txt = 'fixed hourly series of %d hours in which all classes occur on all levels; '
    for avg in (True, False):
        t = 'average' if avg else 'levels'
        for k, i in enumerate((wetpos[3], wetpos[len(wetpos) // 2], drypos)):
            obs.append(Ob('%s-value%d' % (t, k), build, dict(blocks=one, seasons=None, avg=avg, q=50, at=[i], wet='?'),
                          bounds=txt % len(b) + 'one value arbitrary up to 3, dry or missing'))
        obs.append(Ob(t + '-percentile', build, dict(blocks=one, seasons=None, avg=avg, q=40, at=[wetpos[7]]),
                      bounds=txt % len(b) + 'one value arbitrary up to 3; percentile 40'))
        obs.append(Ob(t + '-missing', build, dict(blocks=one, seasons=None, avg=avg, q=50, at=[wetpos[9]],
                                                  missing=wetpos[4:40:6]),
                      bounds=txt % len(b) + 'one value arbitrary up to 3, several missing'))
        for k, s in enumerate(([[1], [2]], [[2], [1]], [[12, 2], [1]], [[1, 2]])):
            obs.append(Ob('%s-seasons%d' % (t, k), build, dict(
                blocks=two, seasons=s, avg=avg, q=50, at=[len(a) + wetpos[5]], missing=[wetpos[1], len(a) + wetpos[2]]),
                bounds=txt % (len(a) + len(b)) + 'two months, seasons %s, one value arbitrary, one missing in '
                                                 'each month' % s))
        obs.append(Ob(t + '-statistics', build, dict(blocks=one, seasons=None, avg=avg, q=50, at=[wetpos[11]],
                                                     via='statistics'),
                      bounds=txt % len(b) + 'one value arbitrary up to 3; computed for a station'))
        obs.append(Ob(t + '-statistics-seasons', build, dict(
            blocks=two, seasons=[[2, 3], [1]], avg=avg, q=60, at=[len(a) + wetpos[6]], via='statistics'),
            bounds=txt % (len(a) + len(b)) + 'two seasons, percentile 60, one value arbitrary; computed for a station'))
        obs.append(Ob(t + '-two-values', build, dict(blocks=one, seasons=None, avg=avg, q=50,
                                                     at=[wetpos[3], wetpos[30]]),
                      bounds=txt % len(b) + 'two values arbitrary up to 3', tier='thorough', max_paths=60000,
                      budget=1500))
        c = (b * 4)[:2048]
        obs.append(Ob(t + '-five-minutes', build, dict(blocks=[('2016-05-03', c)], seasons=None, avg=avg, q=50,
                                                       at=[wetpos[3]], nlev=9, sub=True, hi=1.0),
                      bounds='2048 five-minute values aggregated over nine levels, one arbitrary up to 1'))
    return obs
