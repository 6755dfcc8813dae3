"""C30: station statistics survive export to and import from JSON"""
import contextlib
import io
import os
import tempfile

import numpy as np
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import NAN, expected_hours, same
from .fits import stand_ins

ASSUMPTIONS = ['numbers pass the JSON text unchanged (decimal rounding is outside the claim)']


def filled_cascade(env, tag, sym, nthr):
    """cascade statistics with arbitrary numbers in the cells given by sym"""
    cs = melodist.cascade.CascadeStatistics()
    k = 0
    for name in ('p01', 'p10', 'pxx'):
        a = np.zeros((2, 4)).tolist()
        for i in range(2):
            for j in range(4):
                k += 1
                a[i][j] = env.real('%s_%s%d%d' % (tag, name, i, j), 0.0, 1.0) if (i, j) in sym else k / 100.0
        setattr(cs, name, env.nparray(a))
    w = np.zeros((7, 2, 4)).tolist()
    for c in range(7):
        for i in range(2):
            for j in range(4):
                k += 1
                w[c][i][j] = (env.real('%s_w%d%d%d' % (tag, c, i, j), 0.0, 1.0)
                              if (i, j) in sym and c in (0, 5) else k / 1000.0)
    cs.wxx = env.nparray(w)
    cs.threshold = env.array([env.real('%s_t%d' % (tag, i), 0.0, 50.0) for i in range(nthr)])
    cs.percentile = env.real('%s_percentile' % tag, 0.0, 100.0)
    return cs


CELLS = ('p01', 'p10', 'pxx', 'wxx', 'threshold')


def plain(x):
    return NAN if x is None or x is pd.NaT else x


def check_cascade(env, label, a, b):
    env.check(label, same(env, a.percentile, b.percentile))
    for n in CELLS:
        x, y = np.asarray(getattr(a, n), dtype=object), np.asarray(getattr(b, n), dtype=object)
        env.check(label, x.shape == y.shape)
        if x.shape == y.shape:
            for p, q in zip(x.ravel(), y.ravel()):
                env.check(label, same(env, p, q))


def check_table(env, label, a, b, extra=True):
    """same values under the same row and column labels"""
    if a is None or b is None:
        env.check(label, a is None and b is None)
        return
    if isinstance(a, pd.Series):
        env.check(label, isinstance(b, pd.Series))
        if not isinstance(b, pd.Series):
            return
        ka = [tuple(k) if isinstance(k, tuple) else k for k in a.index]
        kb = [tuple(k) if isinstance(k, tuple) else k for k in b.index]
        env.check(label + ' (labels)', sorted(ka) == sorted(kb) and len(set(kb)) == len(kb))
        gb = dict(zip(kb, b.array))
        for k, x in zip(ka, a.array):
            if k in gb:
                env.check(label, same(env, plain(x), plain(gb[k])))
        # positions matter for lookups by slices and for comparisons
        env.check(label + ' (order)', ka == kb)
        return
    env.check(label + ' (labels)', list(a.index) == list(b.index) and list(a.columns) == list(b.columns))
    for c in a.columns:
        if c not in b.columns:
            continue
        gb = dict(zip(b.index, b[c].array))
        for k, x in zip(a.index, a[c].array):
            if k in gb:
                env.check(label, same(env, plain(x), plain(gb[k])))


def build(env, parts, months, seasons, per_level, nthr, sym_hours=(0, 13, 23)):
    st = env.call(melodist.StationStatistics, lon=11.0, lat=47.0, timezone=1)

    def num(tag, lo, hi, missing=False):
        if missing and env.choice(tag + '_missing', [False, True]):
            return NAN
        return env.real(tag, lo, hi)

    if 'temp' in parts:
        st.temp.max_delta = env.series([num('delta%d' % m, -5.0, 8.0, m == months[0]) for m in months],
                                       pd.Index(months, name='month'))
        st.temp.mean_course = pd.DataFrame(env.nparray(
            [[env.real('tc%d_%d' % (h, m), 0.0, 1.0) if h in sym_hours and m in (months[0], months[-1])
              else (h * 7 + m) % 24 / 23.0 for m in months] for h in range(24)]),
            index=range(24), columns=months)
    if 'wind' in parts:
        st.wind.update(a=env.real('a', -1.0, 1.0), b=env.real('b', 0.0, 2.0), t_shift=env.real('t_shift', 0.0, 24.0))
    if 'hum' in parts:
        st.hum.update(a0=env.real('a0', -5.0, 5.0), a1=env.real('a1', 0.0, 2.0), kr=12)
        key = [(m, h, w) for m in months for h in range(24) for w in (False, True)
               if not (m == months[0] and w and h == 5)]
        st.hum.month_hour_precip_mean = env.series(
            [num('c%d_%d_%d' % (m, h, w), 0.0, 100.0, (h, w) == (13, True) and m == months[0])
             if h in sym_hours and m in (months[0], months[-1]) else (m * 31 + h * 5 + 11 * w) % 97 + 0.5
             for m, h, w in key], pd.MultiIndex.from_tuples(key))
    if 'glob' in parts:
        st.glob.mean_course = pd.DataFrame(env.nparray(
            [[env.real('gc%d_%d' % (h, m), 0.0, 1000.0) if h in sym_hours and m in (months[0], months[-1])
              else float((h * 31 + m * 17) % 600) for m in months] for h in range(24)]),
            index=range(24), columns=months)
    if 'params' in parts:
        st.glob.angstroem = pd.DataFrame(env.nparray(
            [[env.real('aa%d' % m, 0.0, 1.0), env.real('ab%d' % m, 0.0, 1.0)] for m in range(1, 13)]),
            index=np.arange(12) + 1, columns=['a', 'b'])
        st.glob.bristcamp = pd.DataFrame(env.nparray(
            [[env.real('ba%d' % m, 0.0, 1.0), env.real('bc%d' % m, 0.0, 5.0)] for m in range(1, 13)]),
            index=np.arange(12) + 1, columns=['a', 'c'])
    if 'precip' in parts:
        st.precip.months = [np.array(s) for s in seasons]
        cells = [(0, 0), (1, 2)]
        if per_level:
            st.precip.stats = [[filled_cascade(env, 's%dl%d' % (i, l), cells if l in (0, 4) else [], 1)
                                for l in range(5)] for i in range(len(seasons))]
        else:
            st.precip.stats = [filled_cascade(env, 's%d' % i, cells, nthr) for i in range(len(seasons))]
    return st


def roundtrip(env, parts=None, optional=(), months=tuple(range(1, 13)), seasons=(tuple(range(1, 13)),),
              per_level=False, nthr=5, twice=False):
    parts = set(parts or ())
    for p in optional:
        if env.choice('with_' + p, [False, True]):
            parts.add(p)
    st = build(env, parts, list(months), seasons, per_level, nthr)
    export(env, st, twice, per_level)


def computed(env, dates, sym, per_level=False, seasons=None):
    """statistics computed from hourly observations"""
    idx = expected_hours(pd.DatetimeIndex(dates))
    cols = dict(temp=[], hum=[], precip=[], wind=[], glob=[])
    for i, d in enumerate(idx):
        s = i in sym
        h = d.hour
        cols['temp'].append(env.real('temp%d' % i, 262.0, 264.0) if s else 270.0 + (h + i % 5 if h < 15 else 30 - h) / 4.0)
        cols['hum'].append(env.real('hum%d' % i, 1.0, 100.0) if s else 40.5 + (i * 7) % 50)
        cols['precip'].append(float((i * 13) % 11 % 3) * (1 + i % 4) if d.day % 2 else 0.0)
        cols['wind'].append(env.real('wind%d' % i, 0.0, 20.0) if s else 2.5 + (i * 5) % 8 / 4.0)
        cols['glob'].append(env.real('glob%d' % i, 0.0, 900.0) if s else max(0.0, 40.0 * (6 - abs(12 - h))) + i % 3)
    with stand_ins(env):
        st = env.call(melodist.StationStatistics, data=env.frame(cols, pd.DatetimeIndex(idx)), lon=11.0, lat=47.0,
                      timezone=1)
        env.call(st.calc_temperature_stats)
        env.call(st.calc_humidity_stats)
        env.call(st.calc_wind_stats)
        env.call(st.calc_radiation_stats)
        with contextlib.redirect_stdout(io.StringIO()):
            env.call(st.calc_precipitation_stats, months=seasons, avg_stats=not per_level)
    export(env, st, False, per_level)


def export(env, st, twice, per_level):
    new = st
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(2 if twice else 1):
            path = os.path.join(tmp, 'stats%d.json' % i)
            env.call(new.to_json, path)
            new = env.call(melodist.StationStatistics.from_json, path)
    check_table(env, 'temperature shift restored', st.temp.max_delta, new.temp.max_delta)
    check_table(env, 'temperature course restored', st.temp.mean_course, new.temp.mean_course)
    for k in ('a', 'b', 't_shift'):
        check_number(env, 'wind parameters restored', st.wind[k], new.wind[k])
    for k in ('a0', 'a1', 'kr'):
        check_number(env, 'humidity parameters restored', st.hum[k], new.hum[k])
    check_table(env, 'categorical means restored', st.hum.month_hour_precip_mean, new.hum.month_hour_precip_mean)
    check_table(env, 'radiation course restored', st.glob.mean_course, new.glob.mean_course)
    check_table(env, 'sunshine parameters restored', st.glob.angstroem, new.glob.angstroem)
    check_table(env, 'temperature range parameters restored', st.glob.bristcamp, new.glob.bristcamp)
    a, b = st.precip, new.precip
    if a.stats is None:
        env.check('precipitation stays uncomputed', b.stats is None and b.months is None)
    else:
        ok = b.stats is not None and len(a.stats) == len(b.stats) and len(a.months) == len(b.months)
        env.check('seasons restored', ok)
        for x, y in zip(a.months, b.months or []):
            env.check('months of the seasons restored', [int(m) for m in x] == [int(m) for m in y])
        for x, y in zip(a.stats, b.stats or []):
            if per_level:
                env.check('levels restored', isinstance(y, (list, tuple)) and len(x) == len(y))
                for p, q in zip(x, y if isinstance(y, (list, tuple)) else []):
                    check_cascade(env, 'cascade statistics restored', p, q)
            else:
                check_cascade(env, 'cascade statistics restored', x, y)
    if new.temp.max_delta is not None:
        env.observe(new.temp.max_delta)
    env.observe([new.glob.angstroem.loc[m, 'a'] for m in range(1, 13)])


def check_number(env, label, x, y):
    if x is None or y is None:
        env.check(label, x is None and y is None)
    else:
        env.check(label, same(env, x, y))


def obligations(tier, seed):
    obs = []
    year = tuple(range(1, 13))
    seas = ((12, 1, 2), (3, 4, 5), (6, 7, 8), (9, 10, 11))
    b = 'statistics with symbolic numbers: '
    obs.append(Ob('subsets', roundtrip, dict(optional=['temp', 'wind', 'hum', 'glob', 'params', 'precip'],
                                             months=(1, 7, 12)),
                  bounds=b + 'any subset of statistics, three months, one season', budget=300))
    obs.append(Ob('year', roundtrip, dict(parts=['temp', 'wind', 'hum', 'glob', 'params', 'precip']),
                  bounds=b + 'all, twelve months'))
    obs.append(Ob('one-month', roundtrip, dict(parts=['temp', 'hum', 'glob'], months=(11,)),
                  bounds=b + 'a single month'))
    obs.append(Ob('seasons', roundtrip, dict(parts=['precip'], seasons=seas), bounds=b + 'four seasons'))
    obs.append(Ob('seasons-levels', roundtrip, dict(parts=['precip'], seasons=seas[::-1], per_level=True),
                  bounds=b + 'four seasons, five levels'))
    obs.append(Ob('two-seasons', roundtrip, dict(parts=['precip', 'params'], seasons=((4, 5, 6, 7, 8, 9), (10, 11, 12, 1, 2, 3)),
                                                 nthr=9), bounds=b + 'two seasons, nine thresholds'))
    obs.append(Ob('twice', roundtrip, dict(parts=['temp', 'wind', 'hum', 'glob', 'params', 'precip'],
                                           months=(2, 3, 10, 11), seasons=seas[:2], twice=True),
                  bounds=b + 'exported and imported twice'))
    few = ['2016-01-%02d' % d for d in (29, 30, 31)] + ['2016-02-%02d' % d for d in (1, 2, 3)]
    obs.append(Ob('computed', computed, dict(dates=few, sym=(2, 29, 75, 120)),
                  bounds='statistics computed from six days of observations in two months, four hours arbitrary'))
    obs.append(Ob('computed-levels', computed, dict(dates=few, sym=(2, 29, 75, 120), per_level=True,
                                                    seasons=[np.array([1]), np.array([2])]),
                  bounds='statistics computed from six days of observations in two seasons, four hours arbitrary'))
    return obs
