"""C20: radiation from sunshine duration follows the Angstroem model per month"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, check_unchanged, days, expected_hours, snapshot, total
from .rad import check_scaled, day_course, hourly
from .temp import sun


def angstroem(env, dates, monthly, dark=False, missing=False, via='function', dark_pot=True):
    idx = pd.DatetimeIndex(dates)
    n = len(idx)
    if monthly:
        a = [0.2 + 0.01 * m for m in range(1, 13)]
        b = [0.8 - 0.02 * m for m in range(1, 13)]
        for m in sorted(set(idx.month)):
            a[m - 1] = env.real('a%d' % m, 0.1, 0.5)
            b[m - 1] = env.real('b%d' % m, 0.1, 0.9)
        pa, pb = (env.series(x, pd.Index(range(1, 13))) for x in (a, b))
    else:
        pa, pb = env.real('a', 0.1, 0.5), env.real('b', 0.1, 0.9)
        a, b = [pa] * 12, [pb] * 12
    ssd, length, isdark = [], [], []
    for i in range(n):
        isdark.append(dark and env.choice('dark%d' % i, [False, True]))
        length.append(0.0 if isdark[i] else env.real('length%d' % i, 4.0, 24.0))
        if missing and env.choice('missing%d' % i, [False, True]):
            ssd.append(NAN)
        else:
            ssd.append(env.real('ssd%d' % i, 0.0, 20.0))
    courses = [day_course(env, i, (), isdark[i] and dark_pot) for i in range(n)]
    pot = hourly(env, idx, courses)
    st = sun(env, idx, daylength=length)
    data = env.frame(dict(ssd=ssd), idx)
    if via == 'function':
        snap = snapshot(data)
        out = env.call(melodist.disaggregate_radiation, data, sun_times=st, pot_rad=pot,
                       method='pot_rad_via_ssd', angstr_a=pa, angstr_b=pb)
        check_unchanged(env, 'daily input left unchanged', data, snap)
    else:
        if via == 'station':
            stn = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        else:  # the time zone becomes known after the data
            stn = env.call(melodist.Station, lon=11.0, lat=47.0, data_daily=data)
            stn.timezone = 1
        stn.statistics.glob.angstroem = pd.DataFrame(dict(a=pa, b=pb))
        length = list(env.call(melodist.util.get_sun_times, idx, 11.0, 47.0, 1).daylength)
        env.call(stn.disaggregate_radiation, method='pot_rad_via_ssd', pot_rad=pot)
        out = stn.data_disagg.glob
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    if len(ov) != 24 * n:
        return
    for d, day in enumerate(idx):
        v = ov[24 * d: 24 * d + 24]
        if isdark[d]:
            for x in v:
                env.check_eq('zero without daylight', x, 0.0)
            continue
        if isnan(ssd[d]):
            for x in v:
                env.check_nan('missing with the sunshine duration', x)
            continue
        if any(isnan(x) for x in v):
            env.check('value on days with data', False)
            continue
        m = day.month - 1
        mean = (a[m] + b[m] * ssd[d] / length[d]) * total(courses[d]) / 24.0
        check_scaled(env, 'Angstroem mean of the own month', v, courses[d], mean)
        env.check_eq('daily mean', total(v), 24.0 * mean, scale=200)


def obligations(tier, seed):
    obs = []
    month = ['2016-02-28', '2016-02-29', '2016-03-01']
    year = ['2015-12-31', '2016-01-01']
    for monthly in (True, False):
        t = 'monthly' if monthly else 'constant'
        obs.append(Ob(t, angstroem, dict(dates=month, monthly=monthly),
                      bounds='3 days over a month change; sunshine, day length, parameters symbolic'))
        obs.append(Ob('%s-dark' % t, angstroem, dict(dates=year, monthly=monthly, dark=True),
                      bounds='2 days over a year change, each possibly without daylight'))
        obs.append(Ob('%s-dark-pot' % t, angstroem, dict(dates=year, monthly=monthly, dark=True,
                                                        dark_pot=False),
                      bounds='2 days, day length zero while potential radiation is positive'))
        obs.append(Ob('%s-gaps' % t, angstroem, dict(
            dates=['2016-04-30', '2016-06-30', '2016-09-01'], monthly=monthly, missing=True),
            bounds='3 days of different months, every missing pattern'))
        obs.append(Ob('%s-same-day' % t, angstroem, dict(
            dates=list(SAME_DAY), monthly=monthly, missing=True),
            bounds='4 days of different months and years, every missing pattern'))
    obs.append(Ob('months', angstroem, dict(dates=['2016-%02d-10' % m for m in range(1, 13)], monthly=True),
                  bounds='one day of each month'))
    obs.append(Ob('station', angstroem, dict(dates=month, monthly=True, via='station'),
                  bounds='3 days over a month change with the day lengths of the station'))
    obs.append(Ob('station-late', angstroem, dict(dates=month, monthly=True, via='station-late'),
                  bounds='3 days over a month change, time zone of the station set after the data'))
    return obs
