"""C28: statistics of daily courses average exactly their own month and hour"""
import math

import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .c23 import geometry
from .common import SAME_DAY, NAN, check_unchanged, days, expected_hours, snapshot, total


def const(i, h):
    return 270.0 + ((i * 7 + h * 5) % 17) - 0.125 * h


def observations(env, dates, sym_hours, missing, lo=250.0, hi=310.0, name='x'):
    """hourly values; the hours in sym_hours are arbitrary, those in missing possibly missing"""
    idx = pd.DatetimeIndex(dates)
    vals = []
    for i in range(len(idx)):
        for h in range(24):
            if h in missing and env.choice('%s%d_%d_missing' % (name, i, h), [False, True]):
                vals.append(NAN)
            elif h in sym_hours:
                vals.append(env.real('%s%d_%d' % (name, i, h), lo, hi))
            else:
                vals.append(const(i, h))
    return idx, pd.DatetimeIndex(expected_hours(idx)), vals


def mean(xs):
    xs = [x for x in xs if not isnan(x)]
    return total(xs) / len(xs) if xs else NAN


def course(env, dates, sym_hours, missing=(), normalize=False, via='function'):
    idx, hours, vals = observations(env, dates, sym_hours, missing)
    ser = env.series(vals, hours)
    if via == 'function':
        snap = snapshot(ser)
        k = dict(normalize=True) if normalize else {}
        out = env.call(melodist.util.calculate_mean_daily_course_by_month, ser, **k)
        check_unchanged(env, 'observations left unchanged', ser, snap)
    else:
        st = env.call(melodist.StationStatistics, data=pd.DataFrame(dict(temp=ser, glob=ser)), lon=11.0,
                      lat=47.0, timezone=1)
        if normalize:
            env.call(st.calc_temperature_stats)
            out = st.temp.mean_course
        else:
            env.call(st.calc_radiation_stats)
            out = st.glob.mean_course
    env.observe(out)
    months = sorted(set(idx.month))
    env.check('months of the observations', [int(m) for m in out.columns] == months)
    env.check('every hour', [int(h) for h in out.index] == list(range(24)))
    for m in months:
        col = [mean([v for t, v in zip(hours, vals) if t.month == m and t.hour == h]) for h in range(24)]
        if normalize:
            known = [x for x in col if not isnan(x)]
            lo, hi = env.min_(*known), env.max_(*known)
            col = [x if isnan(x) else (x - lo) / (hi - lo) for x in col]
        for h in range(24):
            x = out[m].iloc[h]
            if isnan(col[h]):
                env.check_nan('missing without observations', x)
            elif isnan(x):
                env.check_not_nan('value where there are observations', x)
            else:
                env.check_eq('average of month and hour', x, col[h])


def categories(env, dates, sym_hours, missing=(), wet_hours=(3, 20)):
    idx, hours, hum = observations(env, dates, sym_hours, missing, 0.0, 100.0, 'hum')
    precip = [0.0] * len(hours)
    wet = []
    for i in range(len(idx)):
        k = env.choice('kind%d' % i, ['dry', 'early', 'late', 'missing'] if i == 0 else
                       ['dry', 'early', 'late'])
        wet.append(k in ('early', 'late'))
        if k == 'missing':
            precip[24 * i + wet_hours[0]] = NAN
        elif k != 'dry':
            h = wet_hours[0] if k == 'early' else wet_hours[1]
            precip[24 * i + h] = env.real('precip%d' % i, 0.0, 20.0, open_lo=True)
    df = env.frame(dict(hum=hum, precip=precip), hours)
    snap = snapshot(df)
    out = env.call(melodist.calculate_month_hour_precip_mean, df)
    env.observe(out)
    check_unchanged(env, 'observations left unchanged', df, snap)
    ref = {}
    for t, v, i in zip(hours, hum, [k // 24 for k in range(len(hours))]):
        ref.setdefault((t.month, t.hour, wet[i]), []).append(v)
    got = {(int(m), int(h), bool(w)): v for (m, h, w), v in zip(out.index, out.array)}
    env.check('categories of the observations', set(got) == set(ref))
    for k in ref:
        if k not in got:
            continue
        r = mean(ref[k])
        if isnan(r):
            env.check_nan('missing without observations', got[k])
        elif isnan(got[k]):
            env.check_not_nan('value where there are observations', got[k])
        else:
            env.check_eq('average of month, hour and category', got[k], r)


def shift(env, dates, peaks, lon=11.0, lat=47.0, tz=1.0, missing=(), gone=(), via='function'):
    """peaks: hours of each day with arbitrary values above the rest"""
    idx = pd.DatetimeIndex(dates)
    hours = pd.DatetimeIndex(expected_hours(idx))
    lon = env.real('lon', *lon) if isinstance(lon, tuple) else lon
    vals, hour = [], []
    for i in range(len(idx)):
        day = [const(i, h) for h in range(24)]
        best = None
        for k, h in enumerate(peaks[i]):
            if (i, h) in missing and env.choice('missing%d_%d' % (i, h), [False, True]):
                day[h] = NAN
                continue
            day[h] = env.real('peak%d_%d' % (i, h), 295.0, 310.0)
            # distinct values, the largest is unique
            for b in peaks[i][:k]:
                if not isnan(day[b]):
                    d = day[h] - day[b]
                    gap = 1e-3 if env.mode == 'sym' else 9e-4
                    env.assume(env.or_(d >= gap, d <= -gap))
        if i in gone and env.choice('gone%d' % i, [False, True]):
            day = [NAN] * 24
            hour.append(None)
        else:
            for h in range(24):
                if not isnan(day[h]) and (best is None or env.branch(day[h] > day[best])):
                    best = h
            hour.append(best)
        vals += day
    ser = env.series(vals, hours)
    if via == 'function':
        out = env.call(melodist.get_shift_by_data, ser, lon, lat, tz)
    else:
        st = env.call(melodist.StationStatistics, data=pd.DataFrame(dict(temp=ser)), lon=lon,
                      lat=lat, timezone=tz)
        env.call(st.calc_temperature_stats)
        out = st.temp.max_delta
    env.observe(out)
    got = {int(m): v for m, v in zip(out.index, out.array)}
    for m in sorted(set(idx.month)):
        ds = [hour[i] - (12.0 - (lon / 15.0 - tz) - geometry(d)[1])
              for i, d in enumerate(idx) if d.month == m and hour[i] is not None]
        if not ds:
            env.check_nan('no shift without observations', got.get(m, NAN))
        elif m not in got or isnan(got[m]):
            env.check('shift for months with observations', False)
        else:
            env.check_eq('mean shift of the month', got[m], total(ds) / len(ds))


def obligations(tier, seed):
    obs = []
    three = ['2016-01-30', '2016-01-31', '2016-02-01']
    b = '%d days; values of hours %s symbolic, hours %s possibly missing'
    for norm in (False, True):
        t = 'normalised' if norm else 'plain'
        sh = (0, 7, 23) if not norm else (5,)
        for via in ('function', 'statistics'):
            obs.append(Ob('course-%s-%s' % (t, via), course, dict(
                dates=three, sym_hours=sh, normalize=norm, via=via), bounds=b % (3, sh, ())))
        obs.append(Ob('course-%s-missing' % t, course, dict(
            dates=three, sym_hours=(0, 7) if not norm else (7,), missing=(7, 9), normalize=norm),
            bounds=b % (3, (0, 7), (7, 9))))
        obs.append(Ob('course-%s-same-day' % t, course, dict(
            dates=list(SAME_DAY), sym_hours=(7,), missing=(20,) if norm else (7, 20), normalize=norm),
            bounds=b % (4, (7,), (7, 20))))
        obs.append(Ob('course-%s-years' % t, course, dict(
            dates=['2015-12-31', '2016-01-01', '2016-07-01', '2016-12-30'], sym_hours=(0, 12)
            if not norm else (12,), normalize=norm), bounds=b % (4, (0, 12), ())))
    obs.append(Ob('categories', categories, dict(dates=three, sym_hours=(0, 11, 23)),
                  bounds=b % (3, (0, 11, 23), ()) + '; days dry or wet in different hours'))
    obs.append(Ob('categories-missing', categories, dict(dates=three, sym_hours=(0, 11), missing=(11,)),
                  bounds=b % (3, (0, 11), (11,))))
    obs.append(Ob('categories-same-day', categories, dict(dates=list(SAME_DAY), sym_hours=(5,)),
                  bounds=b % (4, (5,), ())))
    obs.append(Ob('categories-years', categories, dict(
        dates=['2015-12-31', '2016-01-01', '2016-07-01', '2016-12-30'], sym_hours=(0, 12)),
        bounds=b % (4, (0, 12), ())))
    pk = [(13, 15), (12, 16), (0, 14, 23)]
    for via in ('function', 'statistics'):
        obs.append(Ob('shift-%s' % via, shift, dict(dates=three, peaks=pk, via=via),
                      bounds='3 days, two or three hours compete for the maximum'))
    obs.append(Ob('shift-missing', shift, dict(dates=three, peaks=pk, missing=((0, 13), (1, 16)), gone=(1, 2)),
                  bounds='3 days, hours or whole days possibly missing'))
    obs.append(Ob('shift-same-day', shift, dict(
        dates=['2015-03-30', '2015-03-31', '2015-04-01', '2015-04-02'], peaks=pk + [(11, 15)], gone=(0, 3)),
        bounds='4 days of two months, days possibly missing'))
    obs.append(Ob('shift-site', shift, dict(dates=['2015-12-31', '2016-01-01', '2016-06-15'], peaks=pk,
                                            lon=(-90.0, -60.0), lat=-33.0, tz=-4.0),
                  bounds='3 days, any longitude'))
    return obs
