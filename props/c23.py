"""C23: sun times are consistent with solar geometry"""
import math

import pandas as pd

import melodist
from engine.harness import Ob, isnan


def geometry(date):
    """declination (Bourges) in rad and equation of time (Spencer) in hours"""
    doy = pd.Timestamp(date).dayofyear
    g = math.radians(360.0 / 365.25 * (doy - 79.346))
    decl = math.radians(0.3723 + 23.2567 * math.sin(g) - 0.7580 * math.cos(g) + 0.1149 * math.sin(2 * g)
                        + 0.3656 * math.cos(2 * g) - 0.1712 * math.sin(3 * g) + 0.0201 * math.cos(3 * g))
    s = 2 * math.pi * (doy - 1) / 365.0
    eq = 12.0 / math.pi * (0.000075 + 0.001868 * math.cos(s) - 0.032077 * math.sin(s)
                           - 0.014615 * math.cos(2 * s) - 0.040849 * math.sin(2 * s))
    return decl, eq


def times(env, dates, lon, lat, tz):
    df = env.call(melodist.util.get_sun_times, pd.DatetimeIndex(dates), lon, lat, tz)
    env.check('one row per date', list(df.index) == [pd.Timestamp(d) for d in dates])
    return df


def normal(env, date, lon, lat, tz, side='normal'):
    lon, lat, tz = (env.real(k, *v) if isinstance(v, tuple) else v
                    for k, v in (('lon', lon), ('lat', lat), ('tz', tz)))
    # local time within four hours of solar time
    env.assume(lon - 15.0 * tz <= 60.0)
    env.assume(lon - 15.0 * tz >= -60.0)
    decl, eq = geometry(date)
    phi = lat * (math.pi / 180.0)
    # cos(half day) = - tan(lat) tan(decl)
    p, q = env.sin(phi) * math.sin(decl), env.cos(phi) * math.cos(decl)
    if side == 'normal':
        env.assume(p <= q - 1e-6)
        env.assume(p >= 1e-6 - q)
    elif side == 'day':
        env.assume(p >= q + 1e-6)
    else:
        env.assume(p <= -q - 1e-6)
    df = times(env, [date], lon, lat, tz)
    rise, noon, sets, length = (df[c].iloc[0] for c in ('sunrise', 'sunnoon', 'sunset', 'daylength'))
    env.observe([rise, noon, sets, length])
    if any(isnan(x) for x in (rise, noon, sets, length)):
        env.check('all times are known', False)
        return
    ref = 12.0 - (lon / 15.0 - tz) - eq
    env.check_eq('solar noon', noon, ref)
    env.check('day length between 0 and 24 hours', env.and_(env.le(0.0, length), env.le(length, 24.0)))
    env.check('sunrise and sunset within the day', env.and_(
        env.le(0.0, rise), env.le(rise, 24.0), env.le(0.0, sets), env.le(sets, 24.0)))
    a, b = ref - length / 2.0, ref + length / 2.0
    env.check('sunrise half a day length before noon', env.or_(
        env.and_(env.eq(rise, a), env.le(0.0, a)), env.and_(env.eq(rise, a + 24.0), env.le(a, 0.0))))
    env.check('sunset half a day length after noon', env.or_(
        env.and_(env.eq(sets, b), env.le(b, 24.0)), env.and_(env.eq(sets, b - 24.0), env.le(24.0, b))))
    if side == 'normal':
        env.check_eq('half-day angle follows from latitude and declination',
                     env.cos(length * (math.pi / 24.0)) * q, -p)
    else:
        env.check_eq('midnight sun / polar night', length, 24.0 if side == 'day' else 0.0)


def moved(env, dates, lon, lat, tz, dlon, dtz):
    """a site further west or a clock set ahead sees later times"""
    lon = env.real('lon', *lon)
    lat = env.real('lat', *lat)
    tz = env.real('tz', *tz)
    a = times(env, dates, lon, lat, tz)
    b = times(env, dates, lon + dlon, lat, tz + dtz)
    k = dtz - dlon / 15.0
    for i in range(len(dates)):
        for c, shift in (('sunrise', k), ('sunnoon', k), ('sunset', k), ('daylength', 0.0)):
            x, y = a[c].iloc[i], b[c].iloc[i]
            if isnan(x) or isnan(y):
                env.check('all times are known', False)
                continue
            env.check_eq('times move with the site', y, x + shift)


def equator(env, dates, lon, tz):
    lon, tz = env.real('lon', *lon), env.real('tz', *tz)
    df = times(env, dates, lon, 0.0, tz)
    for i in range(len(dates)):
        env.check_eq('twelve hours at the equator', df.daylength.iloc[i], 12.0)


def opposite(env, dates, lon, tz, lat):
    lon, tz, lat = env.real('lon', *lon), env.real('tz', *tz), env.real('lat', *lat)
    a, b = times(env, dates, lon, lat, tz), times(env, dates, lon, -lat, tz)
    for i in range(len(dates)):
        x, y = a.daylength.iloc[i], b.daylength.iloc[i]
        if isnan(x) or isnan(y):
            env.check('all times are known', False)
            continue
        env.check_eq('day lengths of opposite latitudes add up to a day', x + y, 24.0)


def several(env, dates, sites):
    """rows of several dates are computed independently; constant sites through the same code"""
    lon, lat, tz = env.choice('site', sites)
    off = env.real('offset', -10.0, 10.0)
    all_ = times(env, dates, lon + off, lat, tz)
    for i, d in enumerate(dates):
        one = times(env, [d], lon + off, lat, tz)
        for c in ('sunrise', 'sunnoon', 'sunset', 'daylength'):
            env.check_eq('dates are independent', all_[c].iloc[i], one[c].iloc[0])


DATES = ['2016-06-21', '2015-12-21', '2016-03-20', '2016-02-29', '2016-12-31', '2015-01-01', '2015-03-01',
         '2016-09-23', '2015-11-03']


def obligations(tier, seed):
    obs = []
    dates = list(DATES)
    if tier == 'thorough':
        dates += [str(d.date()) for d in pd.date_range('2016-01-05', '2016-12-25', freq='15D')]
    for date in dates:
        for side in ('normal', 'day', 'night'):
            obs.append(Ob('%s-%s' % (side, date), normal, dict(
                date=date, lon=(-180.0, 180.0), lat=(-89.9, 89.9), tz=(-12.0, 12.0), side=side),
                bounds='%s; all sites up to 89.9 degrees with local time within 4 h of solar time; %s'
                       % (date, side)))
    for dlon, dtz in ((15.0, 0.0), (-15.0, 0.0), (0.0, 1.0), (30.0, 2.0)):
        obs.append(Ob('move%g-%g' % (dlon, dtz), moved, dict(
            dates=DATES[:3], lon=(-5.0, 5.0), lat=(-40.0, 40.0), tz=(-0.5, 0.5), dlon=dlon, dtz=dtz),
            bounds='three dates, latitudes up to 40 degrees, local time close to solar time'))
    obs.append(Ob('equator', equator, dict(dates=DATES[:4], lon=(-30.0, 30.0), tz=(-2.0, 2.0)),
                  bounds='four dates, all sites at the equator'))
    for date in DATES[:4]:
        obs.append(Ob('opposite-%s' % date, opposite, dict(
            dates=[date], lon=(-5.0, 5.0), tz=(-0.5, 0.5), lat=(-89.9, 89.9)),
            bounds='%s; all latitudes up to 89.9 degrees' % date))
    obs.append(Ob('several', several, dict(dates=DATES[:5], sites=[(11.0, 47.0, 1.0), (-70.0, -33.0, -4.0)]),
                  bounds='five dates at two sites, longitude varied'))
    return obs
