"""C09: sine temperatures run between the daily minimum and maximum"""
import melodist
from engine.harness import Ob, isnan
from .common import SAME_DAY, check_unchanged, days, expected_hours, snapshot
from .temp import frame, sine_min_max, sun


def course(env, start, n, method='sine_min_max', time='fix', mod=False, via='function', lo_hi=None,
           kw=True):
    idx = days(start, n)
    tmin = env.reals('tmin', n, 230.0, 300.0)
    tmax = [a + env.real('range%d' % i, 0.0, 40.0) for i, a in enumerate(tmin)]
    if time == 'fix':
        los, his = [7] * n, [14] * n
        st = sun(env, idx)
    else:
        los, his = [], []
        for i in range(n):
            a, b = lo_hi
            los.append(env.integer('sunrise%d' % i, *a) if i == 0 else 6 + i % 2)
            his.append(env.integer('noon%d' % i, *b) if i == 0 else 14 + i % 3)
        st = sun(env, idx, [x + 0.3 for x in los], [x - 2 - 0.4 for x in his])
    data = frame(env, idx, tmin, tmax)
    if via == 'function':
        snap = snapshot(data)
        k = dict(method=method, min_max_time=time, sun_times=st)
        if mod:
            k['mod_nighttime'] = True
        out = env.call(melodist.disaggregate_temperature, data, **k)
        check_unchanged(env, 'daily input left unchanged', data, snap)
    else:
        stn = env.call(melodist.Station, lon=11.0, lat=47.0, timezone=1, data_daily=data)
        k = dict(mod_nighttime=True) if mod else {}
        env.call(stn.disaggregate_temperature, method=method, min_max_time=time, **k)
        out = stn.data_disagg.temp
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    if len(ov) != 24 * n:
        return
    for d in range(n):
        for h in range(24):
            x = ov[24 * d + h]
            if isnan(x):
                env.check('value for every hour', False)
                continue
            r, low, high = sine_min_max(tmin, tmax, d, h, los[d], his[d], mod)
            env.check_eq('cosine arc between the extremes', x, r, scale=5)
            env.check('within the extremes involved', env.and_(
                env.or_(env.le(low, x), env.le(high, x)), env.or_(env.le(x, low), env.le(x, high))))
            if h == his[d]:
                env.check_eq('maximum reached at its hour', x,
                             tmax[d], scale=5)
            if mod and h == los[d]:
                env.check_eq('minimum reached at its hour', x, tmin[d], scale=5)


def obligations(tier, seed):
    obs = []
    for via in ('function', 'station'):
        for mod in (False, True):
            obs.append(Ob('fix-%s%s' % (via, '-night' if mod else ''), course, dict(
                start='2015-12-30', n=4, mod=mod, via=via, method='sine_min_max'),
                bounds='4 consecutive days, all extremes symbolic'))
    obs.append(Ob('alias', course, dict(start='2016-02-28', n=2, method='sine'),
                  bounds='2 days, all extremes symbolic'))
    for n in (1, 2):
        for mod in (False, True):
            obs.append(Ob('days-%d%s' % (n, '-night' if mod else ''), course, dict(
                start='2016-02-29', n=n, mod=mod), bounds='%d days, all extremes symbolic' % n))
    for mod in (False, True):
        obs.append(Ob('hours%s' % ('-night' if mod else ''), course, dict(
            start='2016-06-29', n=3, time='sun_loc', mod=mod, lo_hi=((2, 11), (13, 16))),
            bounds='3 days, extremes symbolic, hour of minimum 2..11 and of maximum 13..16',
            weight=2))
        obs.append(Ob('hours-wide%s' % ('-night' if mod else ''), course, dict(
            start='2016-06-29', n=3, time='sun_loc', mod=mod, lo_hi=((0, 12), (13, 20))),
            bounds='3 days, extremes symbolic, hour of minimum 0..12 and of maximum 13..20',
            tier='thorough', weight=2))
    return obs
