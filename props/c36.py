"""C36: radiation on inclined terrain follows the angle of incidence"""
import math

import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .c22 import geometry


def position(date, lon, lat, tz):
    """cosine and sine of the zenith angle and azimuth of the sun"""
    decl, s = geometry(date)
    t = pd.Timestamp(date)
    ha = math.pi * ((t.hour + t.minute / 60.0 + (lon - 15.0 * tz) / 15.0) / 12.0 - 1.0)
    phi = math.radians(lat)
    cz = math.sin(decl) * math.sin(phi) + math.cos(decl) * math.cos(phi) * math.cos(ha)
    sz = math.sqrt(1.0 - cz * cz)
    return s, cz, sz, math.asin(max(-1.0, min(1.0, math.cos(decl) * math.sin(ha) / sz)))


def inclined(env, dates, site, slope=(0.0, math.pi / 2), azimuth=(-math.pi, math.pi), cloud=None):
    """arbitrary inclination and azimuth at a given site"""
    sl = env.real('slope', *slope) if isinstance(slope, tuple) else slope
    az = env.real('azimuth', *azimuth) if isinstance(azimuth, tuple) else azimuth
    f = env.real('cloud', 0.0, 1.0) if cloud == 'any' else 0.0
    k = {} if cloud is None else dict(cloud_fraction=f)
    idx = pd.DatetimeIndex(dates)
    parts = env.call(melodist.potential_radiation, idx, *site, terrain_slope=sl, terrain_slope_azimuth=az,
                     split=True, **k)
    tot = env.call(melodist.potential_radiation, idx, *site, terrain_slope=sl, terrain_slope_azimuth=az, **k)
    flat = env.call(melodist.potential_radiation, idx, *site, split=True, **k)
    env.observe(tot)
    env.check('one value per date', list(tot.index) == list(idx) == list(parts.index))
    for i, d in enumerate(idx):
        x, dr, df = tot.iloc[i], parts['direct'].iloc[i], parts['diffuse'].iloc[i]
        if isnan(x) or isnan(dr) or isnan(df):
            env.check('value for every date', False)
            continue
        s, cz, sz, mu = position(d, *site)
        env.check_eq('direct and diffuse add up', x, dr + df, scale=100)
        env.check_eq('diffuse part as on flat terrain', df, flat['diffuse'].iloc[i], scale=100)
        if cz <= 0.0:
            env.check_eq('nothing below the horizon', x, 0.0, scale=100)
            continue
        inc = env.cos(sl) * cz + env.sin(sl) * sz * env.cos(mu - az)
        beam = s * (0.6 + 0.2 * cz) * (1.0 - f)
        env.check_eq('direct part by angle of incidence', dr, env.max_(beam * inc, env.const(0.0)), scale=100)
        env.check('not negative', env.and_(env.le(0.0, dr), env.le(0.0, df)))


def horizontal(env, date, side):
    """horizontal terrain: the azimuth plays no role, at any site"""
    lon = env.real('lon', -180.0, 180.0)
    lat = env.real('lat', -90.0, 90.0)
    tz = env.real('tz', -12.0, 12.0)
    az = env.real('azimuth', -math.pi, math.pi)
    from .c22 import cos_zenith
    cz = cos_zenith(env, date, lon, lat, tz)
    env.assume(cz <= 1.0)
    env.assume(cz >= 1e-3 if side == 'up' else cz <= -1e-3)
    idx = pd.DatetimeIndex([date])
    a = env.call(melodist.potential_radiation, idx, lon, lat, tz, terrain_slope=0.0, terrain_slope_azimuth=az)
    b = env.call(melodist.potential_radiation, idx, lon, lat, tz)
    env.observe(a)
    env.check('value for every date', not isnan(a.iloc[0]) and not isnan(b.iloc[0]))
    env.check_eq('as on flat terrain', a.iloc[0], b.iloc[0], scale=100)


SITES = [(11.0, 47.0, 1.0), (-70.0, -33.0, -4.0), (140.0, 10.0, 9.0), (15.0, 78.0, 1.0)]
DAY = ['2016-06-21 %02d:00' % h for h in range(0, 24, 3)]
DAYS = ['2015-12-21 08:00', '2015-12-21 16:30', '2016-02-29 07:00', '2016-03-20 12:00', '2016-03-20 17:00',
        '2016-10-05 23:59', '2016-12-31 13:00']


def obligations(tier, seed):
    obs = []
    q = dict(timeout_ms=2000)
    b = 'site %s, %s, any inclination and azimuth'
    for i, site in enumerate(SITES):
        below = [d for d in DAY + DAYS if position(d, *site)[1] <= 0.0]
        for d in DAY + DAYS:
            if d not in below:
                obs.append(Ob('up-%d-%s' % (i, d.replace(' ', '-')), inclined, dict(dates=[d], site=site),
                              bounds=b % (site, d), **q))
        if below:
            obs.append(Ob('below-%d' % i, inclined, dict(dates=below, site=site), bounds=b % (site, below)))
        for d in (DAY[2], DAY[4], DAY[6], DAYS[1]):
            obs.append(Ob('cloud-%d-%s' % (i, d.replace(' ', '-')), inclined, dict(
                dates=[d], site=site, cloud='any'), bounds=b % (site, d) + ', any cloud fraction', **q))
        for k, (sl, az) in enumerate(((0.5, (-math.pi, math.pi)), ((0.0, 1.5), 1.0), ((0.0, 1.5), -2.5))):
            obs.append(Ob('course-%d-%d' % (i, k), inclined, dict(dates=DAY, site=site, slope=sl, azimuth=az),
                          bounds='site %s, 8 times of a day, inclination %s, azimuth %s' % (site, sl, az)))
    for d in DAY[1:4] + DAYS[:3]:
        for side in ('up', 'down'):
            obs.append(Ob('flat-%s-%s' % (side, d.replace(' ', '-')), horizontal, dict(date=d, side=side),
                          bounds='date %s, any site and azimuth, sun %s' % (d, side), **q))
    return obs
