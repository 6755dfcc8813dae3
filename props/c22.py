"""C22: potential radiation is bounded, zero below the horizon and splits consistently"""
import math

import pandas as pd

import melodist
from engine.harness import Ob, isnan


def geometry(date):
    """declination and sun-earth distance factor times the solar constant"""
    doy = pd.Timestamp(date).dayofyear
    decl = math.radians(23.43697) * math.cos(2 * math.pi * (doy - 173.0) / 365.25)
    beta = 2 * math.pi * doy / 365.25
    e = (1.00011 + 0.034221 * math.cos(beta) + 0.00128 * math.sin(beta)
         + 0.000719 * math.cos(2 * beta) + 0.000077 * math.sin(2 * beta))
    return decl, 1367.0 * e


def cos_zenith(env, date, lon, lat, tz):
    decl, _ = geometry(date)
    t = pd.Timestamp(date)
    ha = math.pi * ((t.hour + t.minute / 60.0 + (lon - 15.0 * tz) / 15.0) / 12.0 - 1.0)
    phi = lat * (math.pi / 180.0)
    return (math.sin(decl) * env.sin(phi) + math.cos(decl) * env.cos(phi) * env.cos(ha))


def call(env, dates, lon, lat, tz, f=None, split=False):
    k = {}
    if f is not None:
        k['cloud_fraction'] = f
    if split:
        k['split'] = True
    return env.call(melodist.potential_radiation, pd.DatetimeIndex(dates), lon, lat, tz, **k)


def where(env, lon, lat, tz):
    return (env.real('lon', *lon) if isinstance(lon, tuple) else lon,
            env.real('lat', *lat) if isinstance(lat, tuple) else lat,
            env.real('tz', *tz) if isinstance(tz, tuple) else tz)


def clear(env, dates, lon, lat, tz, cloud=None, side=None):
    lon, lat, tz = where(env, lon, lat, tz)
    f = env.real('cloud', 0.0, 1.0) if cloud == 'any' else cloud
    czs = []
    for d in dates:
        cz = cos_zenith(env, d, lon, lat, tz)
        env.assume(cz <= 1.0)  # holds for all angles
        # away from the horizon
        if side == 'up':
            env.assume(cz >= 1e-3)
        elif side == 'down':
            env.assume(cz <= -1e-3)
        czs.append(cz)
    tot = call(env, dates, lon, lat, tz, f)
    env.observe(tot)
    env.check('one value per date', list(tot.index) == [pd.Timestamp(d) for d in dates])
    parts = call(env, dates, lon, lat, tz, f, split=True)
    ff = 0.0 if f is None else f
    for i, d in enumerate(dates):
        x, dr, df = tot.iloc[i], parts['direct'].iloc[i], parts['diffuse'].iloc[i]
        if isnan(x) or isnan(dr) or isnan(df):
            env.check('value for every date', False)
            continue
        s = geometry(d)[1]
        cz = czs[i] if side == 'up' else (env.max_(czs[i], env.const(0.0)) if side is None else 0.0)
        rd = s * (0.6 + 0.2 * cz) * (1.0 - ff) * cz
        ri = s * (0.3 + 0.1 * cz) * ff * cz
        env.check_eq('direct and diffuse add up', x, dr + df, scale=100)
        env.check_eq('direct part', dr, rd, scale=100)
        env.check_eq('diffuse part', df, ri, scale=100)
        if f is None:  # with clouds a product of non-negative factors by the equalities above
            env.check('not negative', env.and_(env.le(0.0, x), env.le(0.0, dr), env.le(0.0, df)))
        # x = s * cz * (rd + ri) / (s * cz), so the bound by s * cz is one on the transmissivity
        env.check('at most top of atmosphere', env.le(
            (0.6 + 0.2 * cz) * (1.0 - ff) + (0.3 + 0.1 * cz) * ff, 1.0))


def shifted(env, dates, lon, lat, tz, dlon, dtz, hours):
    """a site further east, or a clock that is set differently, sees the same course earlier"""
    lon, lat, tz = where(env, lon, lat, tz)
    for d in dates:
        cz = cos_zenith(env, d, lon, lat, tz)
        env.assume(cz <= 1.0)
    a = call(env, dates, lon, lat, tz)
    b = call(env, [pd.Timestamp(d) - pd.Timedelta(hours=hours) for d in dates], lon + dlon, lat, tz + dtz)
    env.observe(a)
    for i in range(len(dates)):
        x, y = a.iloc[i], b.iloc[i]
        if isnan(x) or isnan(y):
            env.check('value for every date', False)
            continue
        env.check_eq('course moves with the site', x, y, scale=200)


def symmetric(env, date, lat, minutes):
    """same radiation before and after solar noon"""
    lat = env.real('lat', *lat)
    lon = env.real('lon', -180.0, 180.0)
    tz = lon / 15.0  # clock shows solar time
    t = pd.Timestamp(date) + pd.Timedelta(hours=12)
    dates = [t - pd.Timedelta(minutes=minutes), t + pd.Timedelta(minutes=minutes)]
    for d in dates:
        env.assume(cos_zenith(env, d, lon, lat, tz) <= 1.0)
    out = call(env, dates, lon, lat, tz)
    env.observe(out)
    x, y = out.iloc[0], out.iloc[1]
    if isnan(x) or isnan(y):
        env.check('value for every date', False)
        return
    env.check_eq('symmetric about solar noon', x, y, scale=200)


DATES = ['2016-06-21 10:00', '2015-12-21 13:00', '2016-03-20 08:30', '2016-02-29 16:00', '2016-12-31 12:00',
         '2015-01-01 00:00', '2015-03-01 05:10', '2016-10-05 23:59']


def obligations(tier, seed):
    obs = []
    q = dict(timeout_ms=2500)
    site = dict(lon=(-180.0, 180.0), lat=(-90.0, 90.0), tz=(-12.0, 12.0))
    b = 'date %s; all longitudes, latitudes and time zones; sun %s'
    for date in DATES:
        for side in ('up', 'down'):
            obs.append(Ob('%s-%s' % (side, date.replace(' ', '-')), clear, dict(
                dates=[date], side=side, **site), bounds=b % (date, side), **q))
    for date in DATES[:4]:
        for side in ('up', 'down'):
            obs.append(Ob('cloud-%s-%s' % (side, date.replace(' ', '-')), clear, dict(
                dates=[date], side=side, cloud='any', **site),
                bounds=b % (date, side) + ', any cloud fraction', **q))
        obs.append(Ob('any-%s' % date.replace(' ', '-'), clear, dict(
            dates=[date, '2016-06-01 02:00'], lon=(-30.0, 30.0), lat=40.0 if date < '2016' else -60.0,
            tz=(-2.0, 2.0)), bounds='two dates, any side of the horizon', **q))
    for lat in (90.0, -90.0):
        obs.append(Ob('pole%g' % lat, clear, dict(
            dates=['2016-04-04 06:00', '2016-01-04 18:00'], lon=(-30.0, 30.0), lat=lat, tz=(-2.0, 2.0)),
            bounds='two dates at a pole', **q))
    for dlon, dtz, hours in ((15.0, 0.0, 1.0), (-15.0, 0.0, -1.0), (0.0, 1.0, -1.0), (30.0, 2.0, 0.0)):
        obs.append(Ob('move%g-%g' % (dlon, dtz), shifted, dict(
            dates=['2016-05-10 14:20'], dlon=dlon, dtz=dtz, hours=hours, lon=(-30.0, 30.0), lat=(-90.0, 90.0),
            tz=(-2.0, 2.0)), bounds='one date, site moved by %g degrees, clock by %g h' % (dlon, dtz), **q))
    for m in (0, 100, 360, 475, 719):
        obs.append(Ob('noon%d' % m, symmetric, dict(date='2016-02-29', lat=(-90.0, 90.0), minutes=m),
                      bounds='all sites, %d minutes before and after noon' % m, **q))
    return obs
