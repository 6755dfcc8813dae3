"""C37: unusable input and unknown options are refused"""
import numpy as np
import pandas as pd

import melodist
from engine.harness import Discard, Ob, isnan
from .common import NAN, check_unchanged, days, expected_hours, same, sample_stats, snapshot
from .rad import SHAPE
from .temp import sun


def refused(env, fn, *a, **k):
    try:
        fn(*a, **k)
    except Discard:
        raise
    except Exception:
        return True
    return False


# ------------------------------------------------------------ daily data of stations

def temperatures(env, start, n, columns, lo, hi, missing=None, how='setter', replace=False):
    """accepted exactly when no temperature is below 200 K"""
    idx = days(start, n)
    cols = {}
    low = []
    for c in ('tmin', 'tmax', 'tmean'):
        if c not in columns:
            cols[c] = [250.0 + i for i in range(n)]
            continue
        v = []
        for i in range(n):
            if (c, i) == missing:
                v.append(NAN)
                continue
            x = env.real('%s%d' % (c, i), lo, hi)
            v.append(x)
            low.append(x < 200.0)
        cols[c] = v
    cols['precip'] = [0.0] * n  # other variables may well be small
    bad = env.branch(env.or_(*low))
    df = env.frame(cols, idx)
    snap = snapshot(df)
    if how == 'constructor':
        r = refused(env, melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=df)
    else:
        st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1)
        if replace:
            env.call(setattr, st, 'data_daily', env.frame(dict(tmin=[260.0, 261.0]), days('2017-05-31', 2)))
            old, oldh = snapshot(st.data_daily), list(st.data_disagg.index)
        r = refused(env, setattr, st, 'data_daily', df)
        if r and replace:
            check_unchanged(env, 'refused data leave the station as it was', st.data_daily, old)
            env.check('refused data leave the station as it was', list(st.data_disagg.index) == oldh)
        if not r:
            env.check('accepted data are stored', list(st.data_daily.index) == list(idx))
            for c in cols:
                for x, y in zip(st.data_daily[c].array, cols[c]):
                    env.check('accepted data are stored', same(env, x, y))
    env.observe(float(r))
    env.check('refused exactly with implausible temperatures', r == bad)
    check_unchanged(env, 'given data left unchanged', df, snap)


def frames(env, n):
    """order and resolution of the days, kind of container"""
    v = [env.real('x%d' % i, 250.0, 300.0) for i in range(n)]
    good = days('2016-02-28', n)
    kind = env.choice('kind', ['good', 'gap', 'reversed', 'swapped', 'hourly', 'numbers', 'series', 'list',
                               'half-day'])
    idx = good
    if kind == 'gap':
        idx = good[:-1].append(pd.DatetimeIndex([good[-1] + pd.Timedelta(days=3)]))
    elif kind == 'reversed':
        idx = good[::-1]
    elif kind == 'swapped':
        idx = good[[0, 2, 1] + list(range(3, n))]
    elif kind == 'hourly':
        idx = pd.date_range('2016-02-28', periods=n, freq='h')
    elif kind == 'half-day':
        idx = good + pd.Timedelta(hours=12)
    elif kind == 'numbers':
        idx = pd.RangeIndex(n)
    data = env.frame(dict(tmin=v), idx)
    if kind == 'series':
        data = data.tmin
    elif kind == 'list':
        data = v
    st = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1)
    r = refused(env, setattr, st, 'data_daily', data)
    env.observe(float(r))
    env.check('refused unless a frame of ordered days', r == (kind not in ('good', 'gap')))


def hourly_frames(env, n):
    v = [env.real('x%d' % i, 250.0, 300.0) for i in range(n)]
    kind = env.choice('kind', ['hourly', 'daily', 'minutes', 'numbers', 'series'])
    idx = {'hourly': pd.date_range('2016-02-28 22:00', periods=n, freq='h'), 'daily': days('2016-02-28', n),
           'minutes': pd.date_range('2016-02-28 22:00', periods=n, freq='30min'),
           'numbers': pd.RangeIndex(n)}.get(kind, pd.date_range('2016-02-28 22:00', periods=n, freq='h'))
    data = env.frame(dict(temp=v), idx)
    if kind == 'series':
        data = data.temp
    st = env.call(melodist.StationStatistics, lon=11.0, lat=47.0, timezone=1)
    r = refused(env, setattr, st, 'data', data)
    env.observe(float(r))
    env.check('refused unless a frame of hours', r == (kind != 'hourly'))


# ------------------------------------------------------------ options

def inputs(env, n=2):
    idx = days('2016-05-30', n)
    cols = dict(tmin=[], tmax=[], temp=[], precip=[], glob=[], ssd=[], hum=[], hum_min=[], hum_max=[], wind=[])
    rng = dict(tmin=(250.0, 270.0), tmax=(275.0, 300.0), temp=(260.0, 290.0), precip=(20.0, 60.0),
               glob=(20.0, 400.0), ssd=(0.0, 400.0), hum=(0.0, 100.0), hum_min=(0.0, 40.0),
               hum_max=(50.0, 100.0), wind=(0.0, 30.0))
    for c in cols:
        cols[c] = [env.real('%s%d' % (c, i), *rng[c]) for i in range(n)]
    return idx, env.frame(cols, idx)


def hourly(env, idx, lo=270.0):
    h = pd.DatetimeIndex(expected_hours(idx))
    return env.series([lo + float(x) for x in SHAPE] * len(idx), h)


def table():
    key = [(m, h, w) for m in range(1, 13) for h in range(24) for w in (False, True)]
    return pd.Series([50.0] * len(key), index=pd.MultiIndex.from_tuples(key))


def course():
    return pd.DataFrame({m: [((h * 5 + m) % 24) / 23.0 for h in range(24)] for m in range(1, 13)})


KNOWN = dict(
    temperature=['sine_min_max', 'sine_mean', 'sine', 'mean_course_min_max', 'mean_course_mean'],
    humidity=['equal', 'minimal', 'dewpoint_regression', 'min_max', 'linear_dewpoint_variation',
              'month_hour_precip_mean'],
    wind=['equal', 'cosine', 'random'],
    radiation=['pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'],
    precipitation=['equal', 'cascade', 'masterstation'],
)
NAMES = sorted(set(sum(KNOWN.values(), []))) + ['', 'Equal', 'sin', 'cosine ', 'mean', 'nothing', 'random_dewpoint']


def run(env, var, method, idx, data):
    if var == 'temperature':
        return melodist.disaggregate_temperature(data, method=method, mean_course=course(), sun_times=sun(env, idx))
    if var == 'humidity':
        return melodist.disaggregate_humidity(data, method=method, temp=hourly(env, idx), a0=1.0, a1=1.0, kr=12,
                                              month_hour_precip_mean=table())
    if var == 'wind':
        return melodist.disaggregate_wind(data.wind, method=method, a=0.3, b=1.0, t_shift=14.0)
    if var == 'radiation':
        return melodist.disaggregate_radiation(data, sun_times=sun(env, idx), pot_rad=hourly(env, idx, 0.0),
                                               method=method, mean_course=course())
    p = data if method == 'equal' else data.precip
    return melodist.disagg_prec(p, method=method, cascade_options=sample_stats(),
                                hourly_data_obs=hourly(env, idx, 0.0))


def station_run(env, var, method, idx, data):
    st = melodist.Station(lon=11.0, lat=47.0, timezone=1, data_daily=data)
    s = st.statistics
    s.wind.update(a=0.3, b=1.0, t_shift=14.0)
    s.hum.update(a0=2.0, a1=0.9, kr=12, month_hour_precip_mean=table())
    s.temp.mean_course = course()
    s.glob.mean_course = course()
    s.precip.months = [np.arange(12) + 1]
    s.precip.stats = [sample_stats()]
    st.data_disagg['temp'] = hourly(env, idx)
    if var == 'temperature':
        st.disaggregate_temperature(method)
    elif var == 'humidity':
        st.disaggregate_humidity(method)
    elif var == 'wind':
        st.disaggregate_wind(method)
    elif var == 'radiation':
        st.disaggregate_radiation(method, pot_rad=hourly(env, idx, 0.0))
    else:
        st.disaggregate_precipitation(method, master_precip=hourly(env, idx, 0.0))


def methods(env, var, names, via):
    """every known method is accepted, every other name refused"""
    idx, data = inputs(env)
    env.draw_hook = lambda i: 0.3
    m = env.choice('method', names)
    f = run if via == 'function' else station_run
    r = refused(env, f, env, var, m, idx, data)
    env.observe(float(r))
    env.check('refused exactly if unknown', r == (m not in KNOWN[var]))


CASES = {
    'a0': lambda e, i, d: melodist.disaggregate_humidity(d, 'dewpoint_regression', temp=hourly(e, i), a1=1.0),
    'a1': lambda e, i, d: melodist.disaggregate_humidity(d, 'linear_dewpoint_variation', temp=hourly(e, i),
                                                         a0=1.0, kr=12),
    'kr': lambda e, i, d: melodist.disaggregate_humidity(d, 'linear_dewpoint_variation', temp=hourly(e, i),
                                                         a0=1.0, a1=1.0),
    'kr-value': lambda e, i, d: melodist.disaggregate_humidity(
        d, 'linear_dewpoint_variation', temp=hourly(e, i), a0=1.0, a1=1.0,
        kr=e.choice('kr', [0, 1, 5, 7, 8, 11, 13, 24, -6, 6.5])),
    'table': lambda e, i, d: melodist.disaggregate_humidity(d, 'month_hour_precip_mean', temp=hourly(e, i)),
    'hum_min': lambda e, i, d: melodist.disaggregate_humidity(d.drop(columns=['hum_min']), 'min_max',
                                                              temp=hourly(e, i)),
    'hum_max': lambda e, i, d: melodist.disaggregate_humidity(d.drop(columns=['hum_max']), 'min_max',
                                                              temp=hourly(e, i)),
    'wind-a': lambda e, i, d: melodist.disaggregate_wind(d.wind, 'cosine', b=1.0, t_shift=2.0),
    'wind-b': lambda e, i, d: melodist.disaggregate_wind(d.wind, 'cosine', a=0.3, t_shift=2.0),
    'wind-t_shift': lambda e, i, d: melodist.disaggregate_wind(d.wind, 'cosine', a=0.3, b=1.0),
    'course': lambda e, i, d: melodist.disaggregate_radiation(d, sun_times=sun(e, i), method='mean_course',
                                                              pot_rad=hourly(e, i)),
    'pot_rad': lambda e, i, d: melodist.disaggregate_radiation(
        d, sun_times=sun(e, i), method=e.choice('method', ['pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc'])),
    'cascade': lambda e, i, d: melodist.disagg_prec(d.precip, method='cascade'),
    'cascade-type': lambda e, i, d: melodist.disagg_prec(d.precip, method='cascade', cascade_options=(
        sample_stats(),) * 5),
    'one-day': lambda e, i, d: melodist.disagg_prec_cascade(d.precip.iloc[:1], sample_stats()),
    'no-day': lambda e, i, d: melodist.disagg_prec_cascade(d.precip.iloc[:0], sample_stats()),
    'one-day-fine': lambda e, i, d: melodist.disagg_prec_cascade(d.precip.iloc[:1], sample_stats(9), hourly=False),
}


def incomplete(env, cases):
    idx, data = inputs(env)
    env.draw_hook = lambda i: 0.3
    c = env.choice('case', cases)
    r = refused(env, CASES[c], env, idx, data)
    env.observe(float(r))
    env.check('refused without what the method needs', r)


def levels(env, hourly_, lengths, level=9):
    """a list of statistics has one element per level"""
    idx, data = inputs(env)
    env.draw_hook = lambda i: 0.3
    n = env.choice('length', lengths)
    st = [sample_stats() for _ in range(n)]
    k = {} if hourly_ else dict(hourly=False, level=level)
    r = refused(env, melodist.disagg_prec_cascade, data.precip, st, **k)
    env.observe(float(r))
    env.check('refused exactly with the wrong number of levels', r == (n != (5 if hourly_ else level)))


def obligations(tier, seed):
    obs = []
    all3 = ('tmin', 'tmax', 'tmean')
    b = '%d days, temperatures %s symbolic between %g and %g K'
    for how in ('setter', 'constructor'):
        for c in all3:
            obs.append(Ob('%s-%s' % (c, how), temperatures, dict(
                start='2016-02-28', n=4, columns=(c,), lo=-50.0, hi=400.0, how=how),
                bounds=b % (4, c, -50.0, 400.0)))
    obs.append(Ob('together', temperatures, dict(start='2015-12-30', n=3, columns=all3, lo=190.0, hi=340.0,
                                                 missing=('tmax', 1)), bounds=b % (3, all3, 190.0, 340.0)))
    for c in all3:
        obs.append(Ob('replace-%s' % c, temperatures, dict(start='2015-12-30', n=3, columns=(c,), lo=190.0,
                                                           hi=340.0, missing=(c, 0), replace=True),
                      bounds=b % (3, c, 190.0, 340.0) + ', data present before'))
    obs.append(Ob('frames', frames, dict(n=4), bounds='4 days, ordered or not, or other containers'))
    obs.append(Ob('hourly-frames', hourly_frames, dict(n=5), bounds='5 records of different resolution'))
    for var in KNOWN:
        for via in ('function', 'station'):
            obs.append(Ob('methods-%s-%s' % (var, via), methods, dict(var=var, names=NAMES, via=via),
                          bounds='all known names of any variable and 7 others; 2 days of symbolic values'))
    obs.append(Ob('incomplete', incomplete, dict(cases=sorted(CASES)),
                  bounds='%d calls without a required input; 2 days of symbolic values' % len(CASES)))
    obs.append(Ob('levels-hourly', levels, dict(hourly_=True, lengths=list(range(0, 11))),
                  bounds='lists of 0..10 statistics'))
    obs.append(Ob('levels-9', levels, dict(hourly_=False, lengths=[0, 1, 4, 5, 7, 8, 9, 10], level=9),
                  bounds='lists of 0..10 statistics, 9 levels'))
    obs.append(Ob('levels-7', levels, dict(hourly_=False, lengths=[1, 5, 6, 7, 8, 9], level=7),
                  bounds='lists of 1..9 statistics, 7 levels'))
    return obs
