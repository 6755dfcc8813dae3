"""C33: station setup and disaggregation only change what they announce"""
import itertools

import numpy as np
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import (NAN, check_unchanged, days, expected_hours, pick_days, same, sample_stats, snapshot)
from .rad import SHAPE

HOURLY = ['temp', 'precip', 'glob', 'hum', 'wind']


# ------------------------------------------------------------ assignment

def check_assigned(env, st, full, given, vals):
    env.check('complete range of days', list(st.data_daily.index) == list(full))
    env.check('columns kept', set(st.data_daily.columns) == set(vals))
    for c in vals:
        for d, x in zip(st.data_daily.index, list(st.data_daily[c].array)):
            if d not in given:
                env.check_nan('absent days are missing', x)
            else:
                env.check('daily values stored', same(env, x, vals[c][given.index(d)]))
    out = st.data_disagg
    env.check('one row for each hour', list(out.index) == expected_hours(full))
    env.check('hourly variables', set(HOURLY) <= set(out.columns))
    for c in HOURLY:
        env.check('nothing disaggregated yet', c in out and bool(out[c].isna().all()))


def assign(env, start, n, step=None, how='setter', freq=False, second=None):
    if step:
        full = days(start, n * step)[: (n - 1) * step + 1]
        given = days(start, n * step)[::step][:n]
        if not freq:
            given = pd.DatetimeIndex(list(given))
    else:
        full = days(start, n)
        given = pick_days(env, start, n)
    given_l = list(given)

    def make(tag, idx):
        v = dict(tmin=[], precip=[], other=[])
        for i in range(len(idx)):
            miss = env.choice('%smissing%d' % (tag, i), [False, True]) if i == 1 else False
            v['tmin'].append(NAN if miss else env.real('%stmin%d' % (tag, i), 200.0, 330.0))
            v['precip'].append(env.real('%sprecip%d' % (tag, i), 0.0, 100.0))
            v['other'].append(env.real('%sother%d' % (tag, i), -1e3, 1e3))
        return v

    vals = make('a', given_l)
    df = env.frame(vals, given)
    snap = snapshot(df)
    if how == 'constructor':
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=df)
    else:
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1)
        env.call(setattr, st, 'data_daily', df)
    check_unchanged(env, 'given data left unchanged', df, snap)
    check_assigned(env, st, full, given_l, vals)
    if len(st.data_daily) != len(full):
        return
    # later changes on either side stay on that side
    df.iloc[0, 0] = env.const(222.0)
    df['precip'] = env.array([77.0] * len(df))
    check_assigned(env, st, full, given_l, vals)
    vals2 = snapshot(df)
    st.data_daily.iloc[len(full) - 1, 0] = env.const(233.0)
    st.data_daily['other'] = env.array([5.0] * len(full))
    check_unchanged(env, 'given data independent of the station', df, vals2)
    if second:
        idx2 = days(second, 2)
        v2 = make('b', list(idx2))
        st.data_disagg['temp'] = env.series([1.0] * len(st.data_disagg), st.data_disagg.index)
        env.call(setattr, st, 'data_daily', env.frame(v2, idx2))
        check_assigned(env, st, idx2, list(idx2), v2)
        env.check('sun times of the new days', list(st.sun_times.index) == list(idx2))
    env.observe(st.data_daily)


def observed(env, how):
    """hourly observations of the statistics are a copy"""
    idx = pd.date_range('2016-02-28', periods=48, freq='h')
    at = (0, 13, 24, 47)
    cols = {c: [env.real('%s%d' % (c, i), 0.0, 100.0) if i in at else float(i % 7) for i in range(48)]
            for c in ('precip', 'wind')}
    df = env.frame(cols, idx)
    snap = snapshot(df)
    if how == 'constructor':
        s = env.call(melodist.StationStatistics, data=df, lon=11.0, lat=47.0, timezone=1)
    else:
        s = env.call(melodist.StationStatistics, lon=11.0, lat=47.0, timezone=1)
        env.call(setattr, s, 'data', df)
    check_unchanged(env, 'given observations left unchanged', df, snap)
    check_unchanged(env, 'observations stored', s.data, snap)
    df.iloc[13, 0] = env.const(222.0)
    df['wind'] = env.array([77.0] * len(df))
    check_unchanged(env, 'observations stored as a copy', s.data, snap)
    snap = snapshot(df)
    s.data.iloc[0, 0] = env.const(233.0)
    s.data['wind'] = env.array([5.0] * len(df))
    check_unchanged(env, 'given observations independent of the statistics', df, snap)
    env.observe(s.data)


# ------------------------------------------------------------ disaggregation

def bunches(st):
    s = st.statistics
    out = {}
    for b in ('temp', 'wind', 'precip', 'hum', 'glob'):
        for k, v in getattr(s, b).items():
            out[b, k] = v
    return out


def freeze(v):
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return ('pd', snapshot(v))
    if isinstance(v, melodist.cascade.CascadeStatistics):
        return ('cs', {k: np.array(x, copy=True) for k, x in v.__dict__.items()})
    if isinstance(v, (list, tuple)):
        return ('list', [freeze(x) for x in v])
    if isinstance(v, np.ndarray):
        return ('list', [freeze(x) for x in v])
    return ('val', v)


def check_frozen(env, label, v, f):
    kind, old = f
    if kind == 'pd':
        check_unchanged(env, label, v, old)
    elif kind == 'cs':
        for k, x in old.items():
            env.check(label, np.array_equal(np.asarray(v.__dict__[k]), x))
    elif kind == 'list':
        env.check(label, len(v) == len(old))
        for a, b in zip(v, old):
            check_frozen(env, label, a, b)
    elif old is None:
        env.check(label, v is None)
    else:
        env.check(label, v is old or same(env, v, old))


def station(env, start, n, wide=True, tag=''):
    """station with arbitrary daily data and complete statistics"""
    idx = days(start, n)
    cols = dict(tmin=[], tmax=[], temp=[], precip=[], glob=[], ssd=[], hum=[], hum_min=[], hum_max=[], wind=[])
    for i in range(n):
        lo = env.real('tmin%d' % i, 250.0, 290.0)
        hi = lo + env.real('range%d' % i, 1.0, 25.0)
        cols['tmin'].append(lo)
        cols['tmax'].append(hi)
        cols['temp'].append(lo + 0.5 * (hi - lo) if not wide else env.real('tmean%d' % i, 250.0, 320.0))
        cols['precip'].append(env.real('precip%d' % i, 0.0, 100.0))
        cols['glob'].append(env.real('glob%d' % i, 20.0, 400.0))
        cols['ssd'].append(env.real('ssd%d' % i, 0.0, 400.0))
        cols['hum'].append(env.real('hum%d' % i, 0.0, 100.0))
        cols['hum_min'].append(env.real('hum_min%d' % i, 0.0, 40.0))
        cols['hum_max'].append(env.real('hum_max%d' % i, 50.0, 100.0))
        cols['wind'].append(env.real('wind%d' % i, 0.0, 30.0))
    st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=env.frame(cols, idx))
    s = st.statistics
    s.wind.update(a=0.3, b=1.0, t_shift=14.0)
    s.hum.update(a0=2.0, a1=0.9, kr=12)
    key = [(m, h, w) for m in range(1, 13) for h in range(24) for w in (False, True)]
    s.hum.month_hour_precip_mean = pd.Series(
        [40.0 + m + h + 5 * w for m, h, w in key], index=pd.MultiIndex.from_tuples(key))
    s.temp.max_delta = pd.Series([2.0 + 0.1 * m for m in range(12)], index=range(1, 13))
    mc = pd.DataFrame({m: [((h * 5 + m) % 24) / 23.0 for h in range(24)] for m in range(1, 13)})
    s.temp.mean_course = mc
    s.glob.mean_course = pd.DataFrame({m: [float(x) + (m if x else 0) for x in SHAPE] for m in range(1, 13)})
    s.precip.months = [np.array([12, 1, 2, 3, 4, 5]), np.array([6, 7, 8, 9, 10, 11])]
    s.precip.stats = [sample_stats(), sample_stats()]
    return st, idx


def pot_rad(env, st):
    v = [float(x) for x in SHAPE] * (len(st.data_disagg) // 24)
    return env.series(v, st.data_disagg.index)


OPS = dict(
    wind_equal=('wind', lambda env, st: st.disaggregate_wind('equal')),
    wind_cosine=('wind', lambda env, st: st.disaggregate_wind('cosine')),
    wind_random=('wind', lambda env, st: st.disaggregate_wind('random')),
    hum_equal=('hum', lambda env, st: st.disaggregate_humidity('equal')),
    hum_minimal=('hum', lambda env, st: st.disaggregate_humidity('minimal')),
    hum_regression=('hum', lambda env, st: st.disaggregate_humidity('dewpoint_regression')),
    hum_linear=('hum', lambda env, st: st.disaggregate_humidity('linear_dewpoint_variation')),
    hum_min_max=('hum', lambda env, st: st.disaggregate_humidity('min_max')),
    hum_category=('hum', lambda env, st: st.disaggregate_humidity('month_hour_precip_mean')),
    hum_preserve=('hum', lambda env, st: st.disaggregate_humidity('month_hour_precip_mean',
                                                                  preserve_daily_mean=True)),
    temp_fix=('temp', lambda env, st: st.disaggregate_temperature('sine_min_max', 'fix')),
    temp_sun=('temp', lambda env, st: st.disaggregate_temperature('sine_min_max', 'sun_loc', mod_nighttime=True)),
    temp_shift=('temp', lambda env, st: st.disaggregate_temperature('sine_mean', 'sun_loc_shift')),
    temp_course=('temp', lambda env, st: st.disaggregate_temperature('mean_course_min_max')),
    temp_course_mean=('temp', lambda env, st: st.disaggregate_temperature('mean_course_mean')),
    precip_equal=('precip', lambda env, st: st.disaggregate_precipitation('equal')),
    precip_master=('precip', lambda env, st: st.disaggregate_precipitation(
        'masterstation', master_precip=pot_rad(env, st))),
    precip_cascade=('precip', lambda env, st: st.disaggregate_precipitation('cascade')),
    glob_pot=('glob', lambda env, st: st.disaggregate_radiation('pot_rad', pot_rad=pot_rad(env, st))),
    glob_ssd=('glob', lambda env, st: st.disaggregate_radiation('pot_rad_via_ssd', pot_rad=pot_rad(env, st))),
    glob_bc=('glob', lambda env, st: st.disaggregate_radiation('pot_rad_via_bc', pot_rad=pot_rad(env, st))),
    glob_course=('glob', lambda env, st: st.disaggregate_radiation('mean_course')),
)


def only(env, ops, start, n):
    name = env.choice('operation', ops)
    var, op = OPS[name]
    st, idx = station(env, start, n)
    if name in ('precip_cascade', 'wind_random'):
        # concrete draws: the course of the cascade itself is the matter of C01-C03
        env.draw_hook = lambda i: 0.3
    if name == 'precip_cascade':
        for i in range(n):
            st.data_daily.iloc[i, list(st.data_daily.columns).index('precip')] = env.const(3.0 + i)
    # the other variables already hold arbitrary values
    H = len(st.data_disagg)
    for k, c in enumerate(HOURLY):
        if c == 'temp':
            v = [env.real('old_temp', 255.0, 300.0)] * 2 + [270.0 + (h % 24) / 2.0 for h in range(2, H)]
        else:
            v = [env.real('old_%s' % c, 0.0, 50.0)] + [float(k + h % 7) for h in range(1, H)]
        st.data_disagg[c] = env.series(v, st.data_disagg.index)
    before = snapshot(st.data_disagg)
    daily = snapshot(st.data_daily)
    sun = snapshot(st.sun_times)
    stats = {k: freeze(v) for k, v in bunches(st).items()}
    coords = st.lon, st.lat, st.timezone
    env.call(op, env, st)
    env.observe(st.data_disagg[var])
    check_unchanged(env, 'daily data left unchanged', st.data_daily, daily)
    check_unchanged(env, 'sun times left unchanged', st.sun_times, sun)
    now = bunches(st)
    env.check('statistics left unchanged', set(now) == set(stats))
    for k, f in stats.items():
        if k in now:
            check_frozen(env, 'statistics left unchanged', now[k], f)
    env.check('coordinates left unchanged', coords == (st.lon, st.lat, st.timezone))
    after = snapshot(st.data_disagg)
    env.check('rows left unchanged', after['index'] == before['index'])
    env.check('columns left unchanged', set(after['cols']) == set(before['cols']))
    for c in HOURLY:
        a, b = after['cols'].get(c, []), before['cols'][c]
        if c != var:
            env.check('other variables left unchanged', len(a) == len(b))
            for x, y in zip(a, b):
                env.check('other variables left unchanged', x is y or same(env, x, y))
        else:
            # (Bristow-Campbell is not defined for every temperature range)
            env.check('variable filled', len(a) == len(b) and (
                name == 'glob_bc' or not any(isnan(x) for x in a)))


def commute(env, ops, start, n):
    """the order of two disaggregations and repeating the first does not matter"""
    a = env.choice('first', ops)
    b = env.choice('second', ops)
    if OPS[a][0] == OPS[b][0]:
        return
    res = []
    for order in ((a, b), (b, a), (a, b, a)):
        st, idx = station(env, start, n)
        for o in order:
            env.call(OPS[o][1], env, st)
        res.append(snapshot(st.data_disagg))
    for other in res[1:]:
        for c in HOURLY:
            x, y = res[0]['cols'][c], other['cols'][c]
            env.check('order does not matter', len(x) == len(y))
            for p, q in zip(x, y):
                env.check('order does not matter', p is q or same(env, p, q))
    env.observe(res[0]['cols']['wind'])


def overwrite(env, first, second, start, n):
    """a second disaggregation of the same variable replaces the first completely"""
    a = env.choice('first', first)
    b = env.choice('second', second)
    if OPS[a][0] != OPS[b][0]:
        return
    res = []
    for order in ((a, b), (b,)):
        st, idx = station(env, start, n)
        for o in order:
            env.call(OPS[o][1], env, st)
        res.append(st.data_disagg[OPS[b][0]])
    for p, q in zip(res[0].array, res[1].array):
        env.check('last disaggregation counts', p is q or same(env, p, q))
    env.observe(res[1])


# ------------------------------------------------------------ coordinates

def coordinates(env, steps, kinds, stat='temperature'):
    idx = days('2016-03-30', 3)
    hours = pd.DatetimeIndex(expected_hours(idx))
    H = len(hours)
    temp = [270.0 + 10 * np.cos(2 * np.pi / 24 * (h % 24 - 13 - h // 24)) + h / 50.0 for h in range(H)]
    glob = [float(x) * (0.5 + 0.1 * i) for i in range(3) for x in SHAPE]
    obs = env.frame(dict(temp=temp, glob=glob), hours)
    sym = stat == 'temperature'

    # the latitude plays no role for the solar noon, the radiation statistics are fitted numerically
    fixed = dict(lat=[47.0, -33.0, 5.0, 60.0, -12.0], lon=[11.0, -75.0, 140.0, -2.0, 80.0],
                 timezone=[1, -5, 9, 0, 5])

    def value(kind, i):
        if not sym or kind == 'lat':
            return fixed[kind][i]
        return env.real('%s%d' % (kind, i), *((0.0, 60.0) if kind == 'lon' else (0.0, 4.0)))

    now = dict(lon=value('lon', 0), lat=value('lat', 0), timezone=value('timezone', 0))
    st = env.call(melodist.Station, **now)
    for i in range(steps):
        k = env.choice('step%d' % i, kinds)
        if k == 'statistics':
            new = env.call(melodist.StationStatistics, data=obs, lon=3.0, lat=4.0, timezone=5)
            env.call(setattr, st, 'statistics', new)
        elif k == 'data':
            env.call(setattr, st, 'data_daily', env.frame(dict(tmin=[270.0] * 3), idx))
        elif k == 'read':
            env.check('coordinates readable', same(env, st.lon, now['lon']))
        else:
            now[k] = value(k, i + 1)
            env.call(setattr, st, k, now[k])
    for k in now:
        env.check('station holds the last value', same(env, getattr(st, k), now[k]))
    ref = env.call(melodist.StationStatistics, data=obs, **now)
    st.statistics.data = obs
    if stat == 'temperature':
        env.call(st.statistics.calc_temperature_stats)
        env.call(ref.calc_temperature_stats)
        pairs = [(st.statistics.temp.max_delta, ref.temp.max_delta)]
    else:
        daily = pd.DataFrame(dict(tmin=[270.0, 271.0, 272.0], tmax=[280.0, 285.0, 283.0],
                                  ssd=[300.0, 360.0, 240.0]), index=idx)
        dl = pd.Series([12.0, 12.1, 12.2], index=idx)
        st.statistics.data = ref.data = pd.DataFrame(dict(glob=glob), index=hours)
        env.call(st.statistics.calc_radiation_stats, daily, dl)
        env.call(ref.calc_radiation_stats, daily, dl)
        pairs = [(st.statistics.glob.angstroem[c], ref.glob.angstroem[c]) for c in 'ab']
        pairs += [(st.statistics.glob.bristcamp[c], ref.glob.bristcamp[c]) for c in 'ac']
    for a, b in pairs:
        env.check('statistics use the coordinates of the station', list(a.index) == list(b.index))
        for x, y in zip(a.array, b.array):
            env.check('statistics use the coordinates of the station', same(env, x, y))
        env.observe(a)


def obligations(tier, seed):
    obs = []
    bv = 'values symbolic, one possibly missing'
    for how in ('setter', 'constructor'):
        obs.append(Ob('assign-gaps-%s' % how, assign, dict(start='2016-02-26', n=5, how=how),
                      bounds='5 days, any subset of the inner days absent; ' + bv))
    for freq in (False, True):
        obs.append(Ob('assign-every-third-day%s' % ('-freq' if freq else ''), assign, dict(
            start='2015-12-30', n=3, step=3, freq=freq), bounds='3 days, every third day given; ' + bv))
    for freq in (False, True):
        for how in ('setter', 'constructor'):
            obs.append(Ob('assign-complete-%s%s' % (how, '-freq' if freq else ''), assign, dict(
                start='2016-02-27', n=4, step=1, freq=freq, how=how),
                bounds='4 consecutive days, index %s frequency; ' % ('with' if freq else 'without') + bv))
    obs.append(Ob('assign-again', assign, dict(start='2016-02-27', n=3, second='2017-06-30'),
                  bounds='data replaced by other days; ' + bv))
    for how in ('setter', 'constructor'):
        obs.append(Ob('observations-' + how, observed, dict(how=how),
                      bounds='two days of hourly observations, four hours arbitrary'))
    groups = [
        ['wind_equal', 'wind_cosine', 'wind_random'],
        ['hum_equal', 'hum_minimal', 'hum_regression', 'hum_min_max'],
        ['hum_linear'], ['hum_category', 'hum_preserve'],
        ['temp_fix', 'temp_sun', 'temp_shift'], ['temp_course', 'temp_course_mean'],
        ['precip_equal', 'precip_master', 'precip_cascade'],
        ['glob_pot', 'glob_ssd', 'glob_course'], ['glob_bc'],
    ]
    for g in groups:
        obs.append(Ob('only-' + '+'.join(g), only, dict(ops=g, start='2016-05-30', n=2),
                      bounds='2 days of symbolic daily values, other variables already filled'))
    ops = ['wind_equal', 'wind_cosine', 'hum_equal', 'temp_fix', 'temp_course_mean', 'precip_equal', 'precip_master',
           'glob_course', 'glob_ssd']
    for o in ops:
        rest = [x for x in ops if OPS[x][0] > OPS[o][0]]
        if rest:
            obs.append(Ob('order-' + o, commute, dict(ops=[o] + rest, start='2016-05-31', n=2),
                          bounds='any two of %s; 2 days of symbolic daily values' % ([o] + rest,)))
    obs.append(Ob('overwrite', overwrite, dict(
        first=['wind_cosine', 'hum_equal', 'temp_fix', 'temp_course', 'precip_master', 'glob_ssd'],
        second=['wind_equal', 'hum_category', 'temp_course_mean', 'precip_equal', 'glob_course'],
        start='2016-05-31', n=2), bounds='2 days of symbolic daily values'))
    kinds = ['lon', 'lat', 'timezone', 'statistics', 'data']
    obs.append(Ob('coordinates', coordinates, dict(steps=3, kinds=kinds),
                  bounds='all histories of 3 assignments, coordinates symbolic'))
    obs.append(Ob('coordinates-radiation', coordinates, dict(
        steps=2, kinds=['lon', 'lat', 'timezone', 'statistics'], stat='radiation'),
        bounds='all histories of 2 assignments of fixed, pairwise different coordinates'))
    return obs
