"""C39: copies of a station are complete and independent"""
import copy

import numpy as np

import melodist
from engine.harness import Ob
from melodist.util.bunch import Bunch
from .c33 import bunches, check_frozen, freeze, station
from .common import check_unchanged, days, same, snapshot


def state(st):
    return dict(daily=snapshot(st.data_daily), disagg=snapshot(st.data_disagg), sun=snapshot(st.sun_times),
                stats={k: freeze(v) for k, v in bunches(st).items()},
                where=(st.lon, st.lat, st.timezone, st.id, st.name))


def check_state(env, label, st, s):
    check_unchanged(env, label, st.data_daily, s['daily'])
    check_unchanged(env, label, st.data_disagg, s['disagg'])
    check_unchanged(env, label, st.sun_times, s['sun'])
    now = bunches(st)
    env.check(label, set(now) == set(s['stats']))
    for k, f in s['stats'].items():
        if k in now:
            check_frozen(env, label, now[k], f)
    for a, b in zip((st.lon, st.lat, st.timezone, st.id, st.name), s['where']):
        env.check(label, a is b or same(env, a, b) if not isinstance(b, str) else a == b)


def put(env, df, i, j):
    df.iloc[i, j] = env.const(321.0)


CHANGES = dict(
    daily=lambda env, st: put(env, st.data_daily, 0, 0),
    daily_column=lambda env, st: st.data_daily.__setitem__('precip', env.array([1.0] * len(st.data_daily))),
    disagg=lambda env, st: put(env, st.data_disagg, 5, 0),
    sun=lambda env, st: put(env, st.sun_times, 0, 0),
    wind=lambda env, st: st.statistics.wind.update(a=99.0),
    wind_attr=lambda env, st: setattr(st.statistics.wind, 't_shift', 98.0),
    hum=lambda env, st: setattr(st.statistics.hum, 'a0', 97.0),
    table=lambda env, st: st.statistics.hum.month_hour_precip_mean.__setitem__((1, 0, False), 96.0),
    delta=lambda env, st: st.statistics.temp.max_delta.__setitem__(3, 95.0),
    course=lambda env, st: put(env, st.statistics.temp.mean_course, 2, 3),
    angstroem=lambda env, st: put(env, st.statistics.glob.angstroem, 2, 1),
    bristcamp=lambda env, st: put(env, st.statistics.glob.bristcamp, 0, 1),
    glob_course=lambda env, st: put(env, st.statistics.glob.mean_course, 12, 6),
    season=lambda env, st: st.statistics.precip.months[0].__setitem__(0, 7),
    seasons=lambda env, st: st.statistics.precip.months.append(np.array([1])),
    cascade=lambda env, st: st.statistics.precip.stats[1].p01.__setitem__((0, 0), 0.875),
    thresholds=lambda env, st: st.statistics.precip.stats[0].threshold.__setitem__(0, 94.0),
    lon=lambda env, st: setattr(st, 'lon', 50.0),
    lat=lambda env, st: setattr(st, 'lat', -20.0),
    timezone=lambda env, st: setattr(st, 'timezone', 5.0),
    new_data=lambda env, st: setattr(st, 'data_daily', env.frame(dict(tmin=[255.0] * 3), days('2012-01-01', 3))),
    disaggregate=lambda env, st: (st.disaggregate_wind('cosine'), st.disaggregate_temperature('sine_min_max'),
                                  st.disaggregate_precipitation('equal')),
)


def deep(env, changes, start='2016-05-30', n=2):
    st, idx = station(env, start, n)
    st.id, st.name = 'x1', 'somewhere'
    old = env.series([env.real('old', 0.0, 50.0)] + [float(h % 7) for h in range(1, 24 * n)], st.data_disagg.index)
    st.data_disagg['hum'] = old
    before = state(st)
    cp = env.call(copy.deepcopy, st)
    check_state(env, 'copy holds the same', cp, before)
    check_state(env, 'copying changes nothing', st, before)
    change = env.choice('change', changes)
    first = env.choice('changed', ['original', 'copy'])
    a, b = (st, cp) if first == 'original' else (cp, st)
    env.call(CHANGES[change], env, a)
    check_state(env, 'change stays on its side', b, before)
    # the untouched one still works
    env.call(b.disaggregate_wind, 'equal')
    env.observe(b.data_disagg.wind)
    for i, x in enumerate(b.data_disagg.wind.array):
        env.check('copy can be used', same(env, x, list(b.data_daily.wind.array)[i // 24]))


def collection(env, how):
    """collections of parameters"""
    v = [env.real('v%d' % i, -10.0, 10.0) for i in range(4)]
    inner = {'k': v[3]}
    b = Bunch(a=v[0], b=v[1], c=None, d=inner)
    cp = env.call({'copy': lambda: b.copy(), 'copy.copy': lambda: copy.copy(b),
                   'deepcopy': lambda: copy.deepcopy(b)}[how])
    env.check('same kind', type(cp) is type(b) and cp is not b)
    env.check('same entries', sorted(cp) == ['a', 'b', 'c', 'd'] and cp.c is None)
    for k in 'ab':
        env.check('same entries', same(env, cp[k], b[k]) and same(env, getattr(cp, k), b[k]))
    cp.a = v[2]
    cp['e'] = 5.0
    env.check('attributes are entries', same(env, cp['a'], v[2]) and cp.e == 5.0)
    env.check('original unchanged', same(env, b.a, v[0]) and same(env, b['a'], v[0]) and 'e' not in b)
    b.b = v[3]
    env.check('copy unchanged', same(env, cp.b, v[1]) and same(env, cp['b'], v[1]))
    if how == 'deepcopy':
        cp.d['k'] = 7.0
        env.check('nested entries independent', same(env, b.d['k'], v[3]))
    env.observe(v)


def shared(env, n=2):
    """statistics are copied on their own as well"""
    st, idx = station(env, '2016-05-30', n)
    s = st.statistics
    before = {k: freeze(v) for k, v in bunches(st).items()}
    cp = env.call(copy.deepcopy, s)
    x = env.real('x', 0.0, 1.0)
    cp.wind.a = x
    cp.hum.update(kr=6)
    cp.glob.angstroem.iloc[0, 0] = 9.0
    cp.precip.stats[0].p10[1, 2] = 0.875
    for k, f in before.items():
        check_frozen(env, 'change stays on its side', bunches(st)[k], f)
    env.check('copy holds its own', same(env, cp.wind.a, x) and cp.hum.kr == 6 and cp.hum['kr'] == 6)
    env.observe([x])


def obligations(tier, seed):
    obs = []
    names = sorted(CHANGES)
    for i in range(0, len(names), 6):
        g = names[i: i + 6]
        obs.append(Ob('deep-' + '+'.join(g), deep, dict(changes=g),
                      bounds='2 days of symbolic daily values, complete statistics; changes %s on either side' % g))
    for how in ('copy', 'copy.copy', 'deepcopy'):
        obs.append(Ob('collection-' + how, collection, dict(how=how), bounds='four entries, values symbolic'))
    obs.append(Ob('statistics', shared, dict(), bounds='complete statistics'))
    return obs
