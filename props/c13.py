"""C13: polar night temperatures connect the extremes linearly"""
import melodist
from engine.harness import Ob, isnan
from .common import days, expected_hours
from .temp import frame, sine_mean, sine_min_max, sun


def reference(env, polar, tmin, tmax, temp, los, his, mod, method):
    """list of hourly values"""
    n = len(polar)
    out = []
    for d in range(n):
        for h in range(24):
            if polar[d]:
                out.append(None)
            elif method == 'sine_mean':
                out.append(sine_mean(temp, tmin, tmax, d, h, his[d]))
            else:
                out.append(sine_min_max(tmin, tmax, d, h, los[d], his[d], mod)[0])
    for d in range(n):
        if polar[d]:
            cur = (tmin[d] + tmax[d]) / 2.0
            before = (tmin[d - 1] + tmax[d - 1]) / 2.0 if d else cur
            rising = env.branch(before <= cur) if d else True
            a, b = (tmin[d], tmax[d]) if rising else (tmax[d], tmin[d])
            out[24 * d + 6], out[24 * d + 18] = a, b
        else:
            if d > 0 and polar[d - 1]:
                for h in range(los[d]):
                    out[24 * d + h] = None
                out[24 * d + los[d]] = tmin[d]
            if d + 1 < n and polar[d + 1]:
                for h in range(his[d] + 1, 24):
                    out[24 * d + h] = None
    known = [i for i, x in enumerate(out) if x is not None]
    full = list(out)
    for i, x in enumerate(out):
        if x is None:
            lo = max([k for k in known if k < i], default=None)
            hi = min([k for k in known if k > i], default=None)
            if lo is None or hi is None:
                full[i] = out[hi if lo is None else lo]
            else:
                w = (i - lo) / float(hi - lo)
                full[i] = out[lo] + w * (out[hi] - out[lo])
    return full


def night(env, start, n, patterns, method='sine_min_max', mod=False, time='fix', los=None, his=None,
          sym_len=False, tie=False, site=None):
    idx = days(start, n)
    polar = list(env.choice('pattern', patterns))
    tmin = env.reals('tmin', n, 230.0, 270.0)
    tmax = [a + env.real('range%d' % i, 0.0, 20.0) for i, a in enumerate(tmin)]
    temp = env.reals('temp', n, 230.0, 290.0) if method == 'sine_mean' else [
        (a + b) / 2.0 for a, b in zip(tmin, tmax)]
    if tie:
        tmin, tmax, temp = [tmin[0]] * n, [tmax[0]] * n, [temp[0]] * n
    # the averages of neighbouring days differ clearly (or are equal by construction)
    for i in range(1, n):
        if polar[i] and not tie:
            diff = tmin[i] + tmax[i] - tmin[i - 1] - tmax[i - 1]
            env.assume(env.or_(diff >= 1e-6, diff <= -1e-6))
    length = []
    for i in range(n):
        if sym_len:
            length.append(env.real('length%d' % i, 0.0, 3.0, open_hi=True) if polar[i] else
                          env.real('length%d' % i, 3.0, 24.0))
        else:
            length.append(2.99 if polar[i] else 3.0)
    if time == 'fix':
        los, his = [7] * n, [14] * n
        st = sun(env, idx, daylength=length)
    else:
        st = sun(env, idx, [x + 0.1 for x in los], [x - 2 - 0.2 for x in his], length)
    k = dict(method=method, min_max_time=time, sun_times=st)
    if mod:
        k['mod_nighttime'] = True
    data = frame(env, idx, tmin, tmax, temp)
    if site is None:
        out = env.call(melodist.disaggregate_temperature, data, **k)
    else:
        stn = env.call(melodist.Station, lon=site[0], lat=site[1], timezone=site[2], data_daily=data)
        env.call(stn.disaggregate_temperature, method=method, mod_nighttime=mod)
        out = stn.data_disagg.temp
    env.observe(out)
    env.check('hours of exactly the given days', list(out.index) == expected_hours(idx))
    ov = list(out.array)
    if len(ov) != 24 * n:
        return
    ref = reference(env, polar, tmin, tmax, temp, los, his, mod, method)
    for d in range(n):
        near = [i for i in (d - 1, d, d + 1) if 0 <= i < n]
        for h in range(24):
            x = ov[24 * d + h]
            if isnan(x):
                env.check('value for every hour', False)
                continue
            env.check_eq('polar night course' if polar[d] else 'normal course', x, ref[24 * d + h], scale=5)
            if method != 'sine_mean' and n <= 2:
                env.check('within the extremes involved', env.and_(
                    env.or_(*[env.le(tmin[i], x) for i in near]),
                    env.or_(*[env.le(x, tmax[i]) for i in near])))


def all_patterns(n):
    return [tuple(bool(k >> i & 1) for i in range(n)) for k in range(1, 2 ** n)]


def obligations(tier, seed):
    obs = []
    for method in ('sine_min_max', 'sine_mean'):
        for n in (1, 2, 3):
            obs.append(Ob('%s-%d' % (method, n), night, dict(
                start='2015-12-30', n=n, patterns=all_patterns(n), method=method),
                bounds='%d days, every pattern of polar days, all values symbolic' % n))
    P = all_patterns(4)
    obs.append(Ob('four', night, dict(start='2015-12-30', n=4, patterns=P),
                  bounds='4 days, every pattern of polar days', weight=2))
    obs.append(Ob('night', night, dict(start='2016-01-30', n=3, patterns=all_patterns(3), mod=True),
                  bounds='3 days, every pattern, night-time modification'))
    obs.append(Ob('sun', night, dict(start='2016-01-30', n=3, patterns=all_patterns(3), time='sun_loc',
                                     los=[10, 11, 9], his=[13, 14, 15]),
                  bounds='3 days, every pattern, hours of extremes from sun times'))
    obs.append(Ob('length', night, dict(start='2016-01-30', n=2, patterns=all_patterns(2), sym_len=True),
                  bounds='2 days, day lengths symbolic on either side of three hours'))
    obs.append(Ob('tie', night, dict(start='2016-01-30', n=3, patterns=all_patterns(3), tie=True),
                  bounds='3 days with the same extremes, every pattern'))
    obs.append(Ob('station-night', night, dict(start='2015-12-20', n=3, patterns=[(True,) * 3],
                                               site=(20.0, 78.0, 1)),
                  bounds='3 days at a polar site in December'))
    obs.append(Ob('station-none', night, dict(start='2015-12-20', n=3, patterns=[(False,) * 3],
                                              site=(20.0, 60.0, 1)),
                  bounds='3 days at a northern site with short days in December'))
    F = [(False, True, False, False, True), (True, False, False, False, True),
         (True, True, False, True, True), (False, False, True, True, True), (True,) * 5]
    obs.append(Ob('five', night, dict(start='2015-12-28', n=5, patterns=F),
                  bounds='5 days, five patterns', weight=2, tier='thorough'))
    return obs
