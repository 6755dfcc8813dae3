"""C06: the station cascade uses for each day the statistics of its own season"""
import numpy as np
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from . import casc
from .common import NAN, day_values, total

# every season splits in its own way, so that the hours of a day tell the season
WAYS = [
    [['01'] * 4] * 2,
    [['10'] * 4] * 2,
    [[1] * 4] * 2,
    [['01', '01', '10', '10'], [5, 5, 0, 0]],
]


def season_stats(k, lists):
    thr = [3.0 + k, 4.0 + k, 5.0 + k, 6.0 + k, 7.0 + k]
    if lists:
        return [casc.fixed_stats(WAYS[(k + (l if k == 2 else 0)) % 3], [thr[l]]) for l in range(5)]
    return casc.fixed_stats(WAYS[k], thr)


def station(env, dates, kinds, seasons, lists, lo=0.0, hi=60.0, as_array=True):
    idx = pd.DatetimeIndex(dates)
    vals, ks = [], []
    for i, k in enumerate(kinds):
        if k == '?':
            k = env.choice('kind%d' % i, ['wet', 'dry', 'nan'])
        if k == 'sym':
            vals.append(env.real('amount%d' % i, lo, hi, open_lo=True))
        else:
            vals.append(6.5 + 1.25 * i if k == 'wet' else 0.0 if k == 'dry' else NAN)
        ks.append(k)
    d = env.real('d', 0.0, 1.0, open_lo=True, open_hi=True)
    env.draw_hook = lambda i: d
    st = env.call(melodist.Station, id='s', name='s', lon=11.0, lat=47.0, timezone=1,
                  data_daily=env.frame(dict(precip=vals), idx))
    full = st.data_daily.index
    st.statistics.precip.months = [np.array(s) for s in seasons] if as_array else [list(s) for s in seasons]
    stats = [season_stats(k, lists) for k in range(len(seasons))]
    st.statistics.precip.stats = stats
    env.call(st.disaggregate_precipitation, method='cascade')
    out = st.data_disagg.precip
    env.observe(out)
    value = dict(zip(idx, zip(vals, ks)))
    # reference: the cascade over the days of each season
    for k, s in enumerate(seasons):
        ds = [x for x in full if x.month in s]
        if len(ds) < 2:
            continue
        v, wet = [], []
        for x in ds:
            a, kind = value.get(x, (NAN, 'nan'))
            w = kind not in ('dry', 'nan')
            v.append(a if w else 0.0)
            wet.append(w)
        cs = stats[k]
        ref = casc.listed(cs, 5) if lists else casc.averaged(cs, 5)
        want = casc.hours(casc.cascade(env, v, wet, ref, 5, lambda level, i: (d, d)))
        for j, x in enumerate(ds):
            got = day_values(out, x)
            a, kind = value.get(x, (NAN, 'nan'))
            env.check('24 values for every day', len(got) == 24)
            if kind == 'nan':
                env.check('missing day stays missing', all(isnan(y) for y in got))
                continue
            for h in range(24):
                env.check_eq('hours follow the statistics of the season of the day', got[h], want[24 * j + h])
            env.check_eq('each day keeps its amount', total(got), a)


def obligations(tier, seed):
    obs = []
    turn = list(pd.date_range('2015-11-29', '2015-12-02'))
    seasons = {
        'two': [[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], [12]],
        'swapped': [[12, 1, 2], [9, 10, 11]],
        'four': [[3, 4, 5], [6, 7, 8], [12, 1, 2], [9, 10, 11]],
        'four-rev': [[9, 10, 11], [12, 1, 2], [6, 7, 8], [3, 4, 5]],
    }
    q = 'seasons %s; '
    for name, s in seasons.items():
        for lists in (False, True):
            if lists and len(s) > 3:
                continue
            t = name + ('-levels' if lists else '')
            obs.append(Ob('kinds-' + t, station, dict(dates=turn, kinds=['?'] * 4, seasons=s, lists=lists),
                          bounds=q % s + '4 days around a change of season, each wet, dry or missing'))
            for i in range(4):
                ks = ['wet', 'wet', 'wet', 'dry']
                ks[i] = 'sym'
                obs.append(Ob('amount%d-%s' % (i, t), station, dict(dates=turn, kinds=ks, seasons=s, lists=lists,
                                                                   as_array=i % 2 == 0),
                              bounds=q % s + '4 days around a change of season, one amount arbitrary up to 60'))
    days = list(pd.date_range('2015-12-30', '2016-01-02'))
    obs.append(Ob('new-year', station, dict(dates=days, kinds=['?', 'sym', 'wet', '?'], seasons=seasons['four'],
                                            lists=False),
                  bounds='one season across the turn of the year, amounts arbitrary or missing'))
    obs.append(Ob('new-year-two', station, dict(dates=days, kinds=['?', 'sym', 'wet', '?'], seasons=seasons['two'],
                                                lists=False),
                  bounds='a change of season at the turn of the year, amounts arbitrary or missing'))
    # one season split into two stretches of the same record
    split = list(pd.date_range('2016-02-28', '2016-05-01'))
    obs.append(Ob('stretches', station, dict(
        dates=split, kinds=['wet', 'sym'] + ['dry', 'wet', 'wet'] * 20 + ['wet', 'nan'],
        seasons=[[3, 4], [2, 5]], lists=False),
        bounds='64 days, a season in two stretches (February and May), one amount arbitrary', budget=300))
    return obs
