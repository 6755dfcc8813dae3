"""C41: results depend on the arguments only, not on earlier calls"""
import os
import tempfile

import numpy as np
import pandas as pd

from engine.harness import Ob, isnan
from engine.patches import fresh
from .common import NAN, check_unchanged, days, expected_hours, same, snapshot
from .fits import stand_ins
from .rad import SHAPE

RNG = dict(tmin=(250.0, 270.0), tmax=(275.0, 300.0), temp=(260.0, 290.0), precip=(20.0, 60.0), glob=(20.0, 400.0),
           ssd=(60.0, 400.0), hum=(30.0, 70.0), hum_min=(0.0, 40.0), hum_max=(50.0, 100.0), wind=(1.0, 30.0))

# what is different in the call before: (first day, number of days, values, parameters)
BEFORE = {
    'values': dict(values='b'),
    'parameters': dict(par=1),
    'days': dict(start='2017-02-28'),
    'month': dict(start='2016-05-28', values='b'),
    'longer': dict(n=3, values='b', par=1),
    'gap': dict(n=3, gap=True),
    'no-gap': dict(n=3, gap=False),
}


class Situation:
    """arguments of one call; data handed to the code are watched for changes"""

    def __init__(self, env, m, start='2016-02-28', n=2, values='a', par=0, gap=False):
        self.env, self.m, self.start, self.n, self.values, self.par = env, m, start, n, values, par
        self.idx = days(start, n)
        if gap:
            self.idx = self.idx[[0, n - 1]]
            self.n = 2
        self.hours = pd.DatetimeIndex(expected_hours(self.idx))
        self.watched = []

    def watch(self, x):
        self.watched.append((x, snapshot(x)))
        return x

    def check_watched(self):
        for x, s in self.watched:
            check_unchanged(self.env, 'arguments left unchanged', x, s)

    def daily(self, *columns, fixed=()):
        cols = {}
        for c in columns:
            if c in fixed:
                k = 0.25 if self.values == 'a' else 0.625
                cols[c] = [RNG[c][0] + k * (RNG[c][1] - RNG[c][0]) + i for i in range(self.n)]
            else:
                cols[c] = [self.env.real('%s_%s%d' % (self.values, c, i), *RNG[c]) for i in range(self.n)]
        return self.watch(self.env.frame(cols, self.idx))

    def column(self, c):
        return self.watch(self.env.series(
            [self.env.real('%s_%s%d' % (self.values, c, i), *RNG[c]) for i in range(self.n)], self.idx))

    def hourly(self, c, lo=None, shape=1.0, sym=(7, 13)):
        """a course whose values at some hours are arbitrary"""
        lo = RNG[c][0] if lo is None else lo
        k = 1.0 if self.values == 'a' else 0.75
        v = [lo + k * shape * x + (i if x else 0) for i in range(self.n) for x in SHAPE]
        for i in range(self.n):
            for h in sym:
                v[24 * i + h] = self.env.real('%s_%s_h%d_%d' % (self.values, c, i, h), v[24 * i + h] - 0.25,
                                              v[24 * i + h] + 0.25)
        return self.watch(self.env.series(v, self.hours))

    def number(self, name, a, b):
        """a parameter that differs between the calls"""
        return self.env.real('%s_%d' % (name, self.par), *((a, (a + b) / 2.0) if self.par == 0
                                                           else ((a + b) / 2.0, b)))

    def pick(self, *options):
        return options[self.par % len(options)]

    def sun(self):
        n = self.n
        noon = 12.25 if self.par == 0 else 11.75
        rise = 6.25 if self.par == 0 else 5.25
        return self.watch(self.env.frame(dict(sunrise=[rise] * n, sunnoon=[noon] * n, sunset=[2 * noon - rise] * n,
                                              daylength=[2 * (noon - rise)] * n), self.idx))

    def course(self):
        k = 5 if self.par == 0 else 7
        return self.watch(pd.DataFrame({mo: [((h * k + mo) % 24) / 23.0 for h in range(24)]
                                        for mo in range(1, 13)}))

    def table(self):
        key = [(mo, h, w) for mo in range(1, 13) for h in range(24) for w in (False, True)]
        return self.watch(pd.Series([40.0 + mo + h + 5 * w + 3 * self.par for mo, h, w in key],
                                    index=pd.MultiIndex.from_tuples(key)))

    def stats(self):
        cs = self.m.cascade.CascadeStatistics()
        cs.fill_with_sample_data()
        if self.par:
            cs.p01, cs.p10 = cs.p10.copy(), cs.p01.copy()
            cs.threshold = cs.threshold * 1.5
        return cs

    def monthly(self, lo):
        return self.watch(pd.Series([lo + 0.125 * mo + 0.25 * self.par for mo in range(12)], index=range(1, 13)))

    def station(self, *columns, fixed=()):
        st = self.m.Station(lon=11.0 + 20.0 * self.par, lat=47.0 - 9.0 * self.par, timezone=self.pick(1, 2),
                            data_daily=self.daily(*columns, fixed=fixed))
        return st


# ------------------------------------------------------------ the calls

def temperature(s, method, time, mod=False):
    k = dict(max_delta=s.monthly(2.0)) if time == 'sun_loc_shift' else {}
    if method.startswith('mean_course'):
        k['mean_course'] = s.course()
    return [s.m.disaggregate_temperature(s.daily('tmin', 'tmax', 'temp'), method=method, min_max_time=time,
                                         mod_nighttime=mod, sun_times=s.sun(), **k)]


def humidity(s, method, **k):
    t = s.hourly('temp', lo=265.0, shape=1 / 32.0)
    k = dict(k)
    if method in ('dewpoint_regression', 'linear_dewpoint_variation'):
        k.update(a0=s.pick(2.0, 3.0), a1=s.pick(0.875, 0.75))
    if method == 'linear_dewpoint_variation':
        k['kr'] = s.pick(6, 12)
    if method == 'month_hour_precip_mean':
        k['month_hour_precip_mean'] = s.table()
    return [s.m.disaggregate_humidity(s.daily('tmin', 'tmax', 'temp', 'hum', 'hum_min', 'hum_max', 'precip'),
                                      method=method, temp=t, **k)]


def wind(s, method):
    k = dict(a=s.number('a', 0.0, 0.5), b=s.number('b', 0.5, 1.5), t_shift=s.pick(14.0, 2.5))
    return [s.m.disaggregate_wind(s.column('wind'), method=method, **k)]


def radiation(s, method):
    k = {}
    if method == 'pot_rad_via_ssd' and s.par:
        k['angstr_a'] = s.monthly(0.125)
        k['angstr_b'] = s.monthly(0.25)
    if method == 'pot_rad_via_bc' and s.par:
        k['bristcamp_a'] = s.monthly(0.5)
        k['bristcamp_c'] = s.monthly(1.5)
    if method == 'mean_course':
        k['mean_course'] = s.course()
    return [s.m.disaggregate_radiation(s.daily('glob', 'ssd', 'tmin', 'tmax', fixed=('tmin', 'tmax')),
                                       sun_times=s.sun(),
                                       pot_rad=s.hourly('glob', lo=0.0, shape=s.pick(1.0, 0.5)), method=method, **k)]


def potential(s, split=False):
    k = dict(terrain_slope=0.5, terrain_slope_azimuth=0.25, cloud_fraction=0.5, split=True) if s.par else {}
    if split and not s.par:
        k = dict(split=True)
    # one coordinate differs and is the same otherwise; the times of two days
    return [s.m.potential_radiation(s.hours, 11.0 + 4.0 * s.par, 47.0 - 3.0 * s.par, s.pick(1, 2), **k)]


def sun_times(s, differ='all'):
    p = s.par
    lon = 11.0 + (20.0 * p if differ in ('all', 'lon') else 0.0)
    lat = 47.0 - (9.0 * p if differ in ('all', 'lat') else 0.0)
    tz = 1 + (p if differ in ('all', 'timezone') else 0)
    return [s.m.util.get_sun_times(s.idx, lon, lat, tz)]


def equal(s, divide):
    return [s.m.distribute_equally(s.column('precip'), divide=divide)]


def cascade(s, hourly=True, level=9, test=False):
    st = s.stats()
    if not hourly:
        st.threshold = np.array([1.25 * 1.5 ** i * (1 + 0.5 * s.par) for i in range(level)])
    r = s.m.disagg_prec_cascade(s.column('precip'), st, hourly=hourly, level=level, shift=0, test=test)
    return list(r) if isinstance(r, tuple) else [r]


def master(s):
    return [s.m.precip_master_station(s.column('precip'), s.hourly('precip', lo=0.0, shape=1 / 64.0),
                                      s.pick('uniform', 'zero'))]


def rain(s):
    """twice the number of days (statistics need more than two)"""
    v = list(s.hourly('precip', lo=0.0, shape=1 / 64.0, sym=(13,)).array)
    hours = pd.DatetimeIndex(expected_hours(days(s.start, 2 * s.n)))
    return s.watch(s.env.frame(dict(precip=v + v[12:] + v[:12]), hours))


def aggregate(s, how):
    data = rain(s)
    if how == 'pairs':
        return list(s.m.precipitation.aggregate_precipitation(data, True, percentile=s.pick(50, 75)))
    r = s.m.build_casc(data, months=s.pick([np.arange(12) + 1], [np.array([1, 2, 3])]),
                       avg_stats=how == 'mean', percentile=s.pick(50, 75))
    return list(r)


def indices(s, which):
    if which == 'hours':
        return [s.m.util.hourly_index(s.idx, fill_gaps=bool(s.par))]
    if which == 'five-minutes':
        return [s.m.precipitation.fmin_index(s.idx, fill_gaps=bool(s.par))]
    return [s.m.precipitation.sub_level_index(s.idx, level=s.pick(4, 5), fill_gaps=bool(s.par))]


def observed(s, *columns):
    cols = {}
    for c in columns:
        lo, shape = dict(temp=(265.0, 1 / 32.0), hum=(35.0, 1 / 32.0), precip=(0.0, 1 / 64.0), wind=(1.0, 1 / 128.0),
                         glob=(0.0, 1.0), ssd=(0.0, 1 / 16.0))[c]
        cols[c] = list(s.hourly(c, lo=lo, shape=shape, sym=(13,)).array)
    return s.watch(s.env.frame(cols, s.hours))


def aggregated(s):
    return [s.m.util.daily_from_hourly(observed(s, 'temp', 'hum', 'precip', 'wind', 'glob', 'ssd'))]


def trimmed(s):
    df = observed(s, 'temp').iloc[5:]
    return [s.m.util.drop_incomplete_days(s.watch(df), shift=s.pick(0, 6))]


def mean_course(s, normalize):
    return [s.m.util.calculate_mean_daily_course_by_month(observed(s, 'temp').temp, normalize=normalize)]


def vapour(s):
    t = s.hourly('temp', lo=265.0, shape=1 / 32.0, sym=())
    h = s.hourly('hum', lo=35.0, shape=1 / 32.0, sym=(13,))
    return [s.m.util.vapor_pressure(t, h), s.m.util.dewpoint_temperature(t, h)]


def interpolation(s):
    d = s.daily('tmin', 'tmax')
    hours = s.pick({'tmin': 7, 'tmax': 14}, {'tmin': 5, 'tmax': 20})
    old = dict(hours)
    st = s.m.Station(lon=11.0, lat=47.0, timezone=1, data_daily=d)
    r = st.interpolate(hours) if s.par == 0 else st.interpolate(hours, limit=3, limit_direction='forward')
    s.env.check('arguments left unchanged', hours == old)
    return [r]


def fits_(s, what):
    if what == 'wind':
        return list(s.m.fit_cosine_function(observed(s, 'wind').wind))
    if what == 'dewpoint':
        return list(s.m.calculate_dewpoint_regression(observed(s, 'temp', 'hum')))
    if what == 'category':
        return [s.m.calculate_month_hour_precip_mean(observed(s, 'hum', 'precip'))]
    dl = s.watch(s.env.series([11.0 + s.par] * s.n, s.idx))
    return list(s.m.fit_angstroem_params(s.column('ssd'), dl, s.column('glob'), s.column('glob')))


def station(s, what):
    """a station from its daily data to the result"""
    st = s.station('tmin', 'tmax', 'temp', 'precip', 'hum', 'wind', 'glob', 'ssd',
                   fixed=('tmin', 'tmax') if what == 'bc' else ())
    q = st.statistics
    if s.par:  # the parameters of one station are not those of another
        q.wind.update(a=0.25, b=1.0, t_shift=14.0)
        q.temp.mean_course = s.course()
        q.temp.max_delta = s.monthly(2.0)
        q.glob.mean_course = s.course()
        q.glob.angstroem.loc[:, 'a'] = 0.125
        q.glob.bristcamp.loc[:, 'a'] = 0.5
        q.hum.update(a0=2.0, a1=0.875, kr=6, month_hour_precip_mean=s.table())
        q.precip.months = [np.arange(12) + 1]
        q.precip.stats = [s.stats()]
    out = [st.data_daily, st.data_disagg, st.sun_times]
    for b in ('temp', 'wind', 'precip', 'hum', 'glob'):
        d = getattr(q, b)
        out.append(sorted(d))
        out += [d[k] for k in sorted(d)]
    if what != 'statistics':
        if what == 'temp':
            st.disaggregate_temperature('sine_min_max', s.pick('sun_loc', 'sun_loc_shift'))
        elif what == 'equal':
            st.disaggregate_wind('equal')
            st.disaggregate_humidity('equal')
            st.disaggregate_precipitation('equal')
        elif what == 'glob':
            st.disaggregate_radiation('pot_rad_via_ssd', pot_rad=s.hourly('glob', lo=0.0))
        elif what == 'bc':
            st.disaggregate_radiation('pot_rad_via_bc', pot_rad=s.hourly('glob', lo=0.0))
        elif what == 'potential':
            st.disaggregate_radiation('pot_rad')
        out.append(st.data_disagg)
    return out


def statistics(s, what):
    data = rain(s) if what == 'precipitation' else observed(s, 'temp', 'hum', 'precip', 'wind', 'glob')
    q = s.m.StationStatistics(data=data, lon=11.0 + 20.0 * s.par, lat=47.0, timezone=s.pick(1, 2))
    if what == 'temperature':
        q.calc_temperature_stats()
        return [q.temp.max_delta, q.temp.mean_course]
    if what == 'humidity':
        q.calc_humidity_stats()
        return [q.hum.month_hour_precip_mean, q.hum.a0, q.hum.a1]
    if what == 'wind':
        q.calc_wind_stats()
        return [q.wind.a, q.wind.b, q.wind.t_shift]
    q.calc_precipitation_stats(months=s.pick(None, [np.array([1, 2, 3])]), percentile=s.pick(50, 75))
    return [list(map(list, q.precip.months))] + list(q.precip.stats)


def json_file(s):
    q = s.m.StationStatistics(lon=11.0, lat=47.0, timezone=1)
    q.wind.update(a=s.number('a', 0.0, 0.5), b=s.number('b', 0.5, 1.5), t_shift=s.pick(14.0, 2.5))
    q.hum.kr = s.pick(6, 12)
    if s.par:
        q.temp.mean_course = s.course()
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.json')
        q.to_json(path)
        r = s.m.StationStatistics.from_json(path)
    return [r.wind.a, r.wind.b, r.wind.t_shift, r.hum.kr, r.temp.mean_course, r.glob.angstroem, r.glob.bristcamp]


def smet_file(s, mode):
    if mode == 'd':
        data = s.daily(*s.pick(('tmin', 'precip', 'wind'), ('wind', 'tmin', 'hum')))
    else:
        data = observed(s, *s.pick(('temp', 'precip'), ('wind', 'temp')))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.smet')
        s.m.write_smet(path, data, dict(station_id='S%d' % s.par, latitude='47.5'), mode=mode)
        header, out = s.m.read_smet(path, mode)
    return [sorted(header.items()), out]


# ------------------------------------------------------------ comparison

def check_same(env, label, a, b, tol=None):
    if isinstance(a, (pd.Series, pd.DataFrame)):
        env.check(label, type(a) is type(b) and a.shape == b.shape and list(a.index) == list(b.index))
        if type(a) is not type(b) or a.shape != b.shape:
            return
        if isinstance(a, pd.DataFrame):
            env.check(label, list(a.columns) == list(b.columns))
        for x, y in zip(a.to_numpy().ravel(), b.to_numpy().ravel()):
            check_same(env, label, x, y, tol)
    elif isinstance(a, pd.Index):
        env.check(label, list(a) == list(b))
    elif isinstance(a, np.ndarray):
        env.check(label, np.shape(a) == np.shape(b))
        if np.shape(a) == np.shape(b):
            for x, y in zip(a.ravel(), b.ravel()):
                check_same(env, label, x, y, tol)
    elif isinstance(a, (list, tuple)):
        env.check(label, len(a) == len(b))
        for x, y in zip(a, b):
            check_same(env, label, x, y, tol)
    elif type(a).__name__ == 'CascadeStatistics':
        for k in ('p01', 'p10', 'pxx', 'wxx', 'threshold', 'percentile'):
            check_same(env, label, getattr(a, k), getattr(b, k), tol)
    elif a is None or isinstance(a, (str, bool)):
        env.check(label, a == b)
    elif isnan(a) or isnan(b):
        env.check(label, isnan(a) and isnan(b))
    elif a is not b:
        env.check(label, b is not None and env.eq(a, b, tol=tol))


def spoil(x):
    """overwrite a result"""
    try:
        if isinstance(x, pd.DataFrame):
            x.iloc[:, :] = 0.5
        elif isinstance(x, pd.Series):
            x.iloc[:] = 0.5
        elif isinstance(x, np.ndarray):
            x[...] = 0.5
    except (TypeError, ValueError):
        pass


def after(env, call, args, before, draws=0.3, tol=None, base=None):
    which = env.choice('before', before)
    if draws is not None:
        env.draw_hook = lambda i: draws
    with stand_ins(env):
        used, new = fresh(env.symbolic), fresh(env.symbolic)
        if which == 'again':
            s = Situation(env, used, **(base or {}))
            for x in env.call(call, s, **args):
                spoil(x)
        else:
            env.call(call, Situation(env, used, **dict(base or {}, **BEFORE[which])), **args)
        res = []
        for m in (used, new):
            env.rewind_draws()
            s = Situation(env, m, **(base or {}))
            res.append(env.call(call, s, **args))
            s.check_watched()
    check_same(env, 'same result after other calls', res[0], res[1], tol)
    for x in res[0]:
        if isinstance(x, (pd.Series, pd.DataFrame)):
            env.observe(x.select_dtypes('number') if isinstance(x, pd.DataFrame) and not env.symbolic else x)


def obligations(tier, seed):
    obs = []

    def add(name, call, before='values parameters days longer again', draws=0.3, tol=None, base=None, **args):
        b = before.split()
        obs.append(Ob(name, after, dict(call=call, args=args, before=b, draws=draws, tol=tol, base=base),
                      bounds='2 days of symbolic values after a call with other arguments (%s)' % ', '.join(b)))

    for method, time in (('sine_min_max', 'fix'), ('sine_min_max', 'sun_loc'), ('sine_mean', 'sun_loc_shift'),
                         ('mean_course_min_max', 'fix'), ('mean_course_mean', 'fix')):
        add('temperature-%s-%s' % (method, time), temperature, 'values parameters days month longer again',
            method=method, time=time)
    add('temperature-night', temperature, method='sine_min_max', time='sun_loc', mod=True)
    for method in ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max',
                   'month_hour_precip_mean'):
        add('humidity-' + method, humidity, method=method)
    add('humidity-mean', humidity, method='month_hour_precip_mean', preserve_daily_mean=True)
    for method in ('equal', 'cosine', 'random'):
        add('wind-' + method, wind, method=method)
    for method in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
        add('radiation-' + method, radiation, 'values parameters days month longer again', method=method)
    add('potential', potential, 'parameters days month longer again')
    add('potential-split', potential, 'parameters days longer again', split=True)
    for d in ('lon', 'lat', 'timezone', 'all'):
        add('sun-times-' + d, sun_times, 'parameters days month longer again', differ=d)
    for divide in (False, True):
        add('equal-%s' % divide, equal, divide=divide)
    add('cascade', cascade)
    add('cascade-levels', cascade, 'parameters days again', test=True)
    add('cascade-9', cascade, 'parameters days again', hourly=False)
    add('master', master)
    for how in ('pairs', 'mean', 'levels'):
        add('cascade-statistics-' + how, aggregate, how=how)
    for which in ('hours', 'five-minutes', 'level'):
        add('indices-' + which, indices, 'parameters days month gap longer', base=dict(n=3), which=which)
        add('indices-%s-gap' % which, indices, 'parameters days month no-gap', base=dict(n=3, gap=True), which=which)
    # the same days but one
    for name, call, args in (
            ('temperature', temperature, dict(method='sine_min_max', time='fix')),
            ('humidity', humidity, dict(method='month_hour_precip_mean')),
            ('wind', wind, dict(method='cosine')), ('equal', equal, dict(divide=True)),
            ('radiation', radiation, dict(method='pot_rad_via_ssd')), ('sun-times', sun_times, {}),
            ('master', master, {}), ('cascade', cascade, {}), ('daily', aggregated, {}), ('trimming', trimmed, {})):
        add(name + '-gap', call, 'no-gap', base=dict(n=3, gap=True), **args)
        add(name + '-no-gap', call, 'gap', base=dict(n=3), **args)
    add('daily', aggregated)
    add('trimming', trimmed)
    for norm in (False, True):
        add('course-%s' % norm, mean_course, 'values parameters days month longer again', normalize=norm)
    add('vapour', vapour)
    add('interpolation', interpolation)
    for what in ('wind', 'dewpoint', 'category', 'angstroem'):
        add('fit-' + what, fits_, what=what)
    for what in ('statistics', 'temp', 'equal', 'glob', 'bc', 'potential'):
        add('station-' + what, station, 'values parameters days longer again', what=what)
    for what in ('temperature', 'humidity', 'wind', 'precipitation'):
        add('statistics-' + what, statistics, what=what)
    add('json', json_file, 'parameters again')
    for mode in 'dh':
        add('smet-' + mode, smet_file, tol=0.0101, mode=mode)
    return obs
