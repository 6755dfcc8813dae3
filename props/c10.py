"""C10: sine temperatures around the mean preserve mean and range of each day"""
import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, NAN, check_unchanged, days, expected_hours, pick_days, snapshot, total
from .temp import frame, sine_mean, sun


def course(env, start, n, via='function', missing=False, gap=False, time='fix', his=None):
    idx = pick_days(env, start, n) if gap else days(start, n)
    n = len(idx)
    tmin = env.reals('tmin', n, 230.0, 300.0)
    tmax = [a + env.real('range%d' % i, 0.0, 40.0) for i, a in enumerate(tmin)]
    temp = env.reals('temp', n, 230.0, 340.0)
    gone = [False] * n
    if missing:
        for i in range(n):
            k = env.choice('missing%d' % i, ['nothing', 'tmin', 'tmax', 'temp'] if i == 1 else
                           ['nothing', 'tmin', 'temp'])
            gone[i] = k != 'nothing'
            if gone[i]:
                dict(tmin=tmin, tmax=tmax, temp=temp)[k][i] = NAN
    if time == 'fix':
        hi = [14] * n
        st = sun(env, idx)
    else:
        hi = [env.integer('noon%d' % i, *his) if i == 0 else 14 + i % 3 for i in range(n)]
        st = sun(env, idx, None, [x - 2 + 0.2 for x in hi])
    data = frame(env, idx, tmin, tmax, temp)
    if via == 'function':
        snap = snapshot(data)
        out = env.call(melodist.disaggregate_temperature, data, method='sine_mean', min_max_time=time,
                       sun_times=st)
        check_unchanged(env, 'daily input left unchanged', data, snap)
    else:
        stn = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        env.call(stn.disaggregate_temperature, method='sine_mean', min_max_time=time)
        out = stn.data_disagg.temp
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    if len(ov) != 24 * n:
        return
    for d in range(n):
        v = ov[24 * d: 24 * d + 24]
        if gone[d]:
            for x in v:
                env.check_nan('missing input makes its day missing', x)
            continue
        if any(isnan(x) for x in v):
            env.check('value for every hour', False)
            continue
        for h in range(24):
            env.check_eq('sine around the mean', v[h], sine_mean(temp, tmin, tmax, d, h, hi[d]), scale=5)
        env.check_eq('daily mean', total(v), 24 * temp[d], scale=24)
        half = (tmax[d] - tmin[d]) / 2.0
        env.check_eq('warmest hour', v[hi[d]], temp[d] + half, scale=5)
        env.check_eq('coldest hour', v[(hi[d] + 12) % 24], temp[d] - half, scale=5)


def obligations(tier, seed):
    obs = []
    for via in ('function', 'station'):
        obs.append(Ob('values-%s' % via, course, dict(start='2015-12-30', n=4, via=via),
                      bounds='4 days, all daily values symbolic'))
        obs.append(Ob('missing-%s' % via, course, dict(start='2016-02-28', n=3, via=via, missing=True),
                      bounds='3 days, any single input of each day missing'))
    obs.append(Ob('gaps', course, dict(start='2016-02-27', n=4, gap=True),
                  bounds='every subset of 4 days containing first and last'))
    obs.append(Ob('same-day', course, dict(start=SAME_DAY, n=4, missing=True),
                  bounds='4 days of different months and years, any single input of each day missing'))
    obs.append(Ob('single', course, dict(start='2016-02-29', n=1), bounds='1 day'))
    obs.append(Ob('hours', course, dict(start='2016-06-29', n=3, time='sun_loc', his=(9, 20)),
                  bounds='3 days, hour of the maximum 9..20'))
    return obs
