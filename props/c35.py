"""C35: model parameters are fitted to exactly the complete observations"""
import numpy as np
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import NAN, check_unchanged, days, expected_hours, snapshot
from .fits import PROBES, linregress, probe, residuals, stand_ins

ASSUMPTIONS = ['the optimisers and the regression of scipy are replaced by a symmetric function of the data while '
               'the code runs symbolically; replays use the real ones']

COURSE = [3.1, 2.9, 2.4, 2.2, 2.6, 3.3, 3.0, 3.9, 4.4, 5.2, 5.0, 5.9, 6.4, 6.0, 6.6, 6.1, 5.4, 5.5, 4.9, 4.1, 4.3,
          3.6, 3.4, 3.2]


def mean(xs):
    xs = [x for x in xs if not isnan(x)]
    if not xs:
        return NAN
    t = 0.0
    for x in xs:
        t = x + t
    return t / float(len(xs))


def wind_values(env, n, at, missing, gone):
    v = [c * (1.0 + 0.3 * (d % 3)) + 0.05 * ((7 * h + 3 * d) % 5) for d in range(n) for h, c in enumerate(COURSE)]
    for i in at:
        v[i] = env.real('w%d' % i, 0.0, 12.0)
    for i in missing:
        if env.choice('missing%d' % i, [False, True]):
            v[i] = NAN
    if gone is not None and env.choice('gone', [False, True]):
        v[24 * gone:24 * gone + 24] = [NAN] * 24
    return v


def wind(env, start, n, at, missing=(), gone=None, station=False, drop=()):
    idx = pd.DatetimeIndex(expected_hours(days(start, n)))
    v = wind_values(env, n, at, missing, gone)
    keep = [i for i in range(len(v)) if i not in drop]
    idx, v = idx[keep], [v[i] for i in keep]
    s = env.series(v, idx)
    snap = snapshot(s)
    with stand_ins(env):
        if station:
            st = env.call(melodist.StationStatistics, data=env.frame(dict(wind=v), idx))
            env.call(st.calc_wind_stats)
            got = [st.wind.a, st.wind.b, st.wind.t_shift]
        else:
            got = list(env.call(melodist.fit_cosine_function, s))
    check_unchanged(env, 'observations left unchanged', s, snap)
    env.check('three parameters', len(got) == 3)
    day = {}
    for t, x in zip(idx, v):
        day.setdefault(t.date(), []).append(x)
    day = {d: mean(x) for d, x in day.items()}
    rec = [(day[t.date()], t.hour, x) for t, x in zip(idx, v) if not isnan(x)]

    def model(a, b, s):
        return [m * (a * np.cos(np.pi * (h - s) / 12) + b) for m, h, _ in rec]

    obs = [x for _, _, x in rec]
    if env.symbolic:
        for j in range(3):
            env.check_eq('residuals of the cosine model over the observed hours', got[j],
                         residuals(model(*probe(j, 3)), obs))
    else:
        # the model is linear in two amplitudes and b: the least squares solution is known
        m, h, y = (np.array(c, dtype=float) for c in zip(*rec))
        lhs = np.array([m * np.cos(np.pi * h / 12), m * np.sin(np.pi * h / 12), m]).T
        best = np.linalg.lstsq(lhs, y, rcond=None)[0]
        r0 = float(((lhs @ best - y) ** 2).sum())
        r1 = float(((np.array(model(*[float(g) for g in got])) - y) ** 2).sum())
        env.check('residuals of the cosine model over the observed hours', r1 <= r0 * (1 + 1e-6) + 1e-6)


TEMPS = [275.0, 274.5, 274.1, 273.9, 273.6, 274.0, 275.2, 276.8, 278.0, 279.4, 280.9, 282.0, 283.1, 283.7, 283.9,
         283.5, 282.6, 281.1, 279.8, 278.9, 277.7, 276.9, 276.2, 275.6]


def dewpoint(env, start, n, at, missing=(), gone=None, station=False):
    """at: hours with arbitrary humidity"""
    idx = pd.DatetimeIndex(expected_hours(days(start, n)))
    temp = [t + 8.0 + 2.5 * ((3 * d) % 5) for d in range(n) for t in TEMPS]
    hum = [95.0 - 2.0 * (t - 273.0) - 3.0 * (d % 3) for d in range(n) for t in TEMPS]
    for i in at:
        hum[i] = env.real('h%d' % i, 20.0, 100.0)
    for c, i in missing:
        if env.choice('missing_%s%d' % (c, i), [False, True]):
            (temp if c == 'temp' else hum)[i] = NAN
    if gone is not None:
        c = env.choice('gone', ['none', 'temp', 'hum'])
        if c != 'none':
            (temp if c == 'temp' else hum)[24 * gone:24 * gone + 24] = [NAN] * 24
    df = env.frame(dict(temp=temp, hum=hum, precip=[0.2 if h % 5 == 0 else 0.0 for h in range(24 * n)]), idx)
    snap = snapshot(df)
    with stand_ins(env):
        if station:
            st = env.call(melodist.StationStatistics, data=df)
            env.call(st.calc_humidity_stats)
            got = [st.hum.a1, st.hum.a0]
            env.check('period of the dew-point variation', st.hum.kr == 12)
        else:
            got = list(env.call(melodist.calculate_dewpoint_regression, df))
        env.check('slope and intercept', len(got) == 2)
        tdew = list(env.call(melodist.util.dewpoint_temperature, df.temp, df.hum).array)
    check_unchanged(env, 'observations left unchanged', df, snap)
    x, y = [], []
    for d in range(n):
        t = [v for v in temp[24 * d:24 * d + 24] if not isnan(v)]
        m = mean(tdew[24 * d:24 * d + 24])
        if t and not isnan(m):
            x.append(min(t))
            y.append(m)
    if env.symbolic:
        r = linregress(x, y)
        env.check_eq('slope of daily mean dew point over daily minimum', got[0], r.slope)
        env.check_eq('intercept of daily mean dew point over daily minimum', got[1], r.intercept)
    else:
        s, i = np.polyfit(np.array(x, dtype=float) - 280.0, np.array(y, dtype=float), 1)
        env.check_eq('slope of daily mean dew point over daily minimum', got[0], s, tol=1e-6)
        env.check_eq('intercept of daily mean dew point over daily minimum', got[1], i - 280.0 * s, tol=1e-3)


def radiation(env, model, start, n, at, missing=()):
    idx = days(start, n)
    cols = dict(ssd=[3.0 + (5 * i) % 7 for i in range(n)], dl=[11.0 + 0.1 * i for i in range(n)],
                tmin=[275.0 + (2 * i) % 5 for i in range(n)], tmax=[284.0 + (3 * i) % 7 for i in range(n)],
                pot=[250.0 + 3.0 * i for i in range(n)], obs=[90.0 + 31.0 * ((3 * i) % 5) for i in range(n)])
    sym = dict(angstroem=('ssd', 'obs'), bristcamp=('obs',))[model]
    for i in at:
        for c in sym:
            cols[c][i] = env.real('%s%d' % (c, i), *dict(ssd=(0.0, 10.0), obs=(20.0, 250.0))[c])
    need = ('ssd', 'dl', 'pot', 'obs') if model == 'angstroem' else ('tmin', 'tmax', 'pot', 'obs')
    for c, i in missing:
        if env.choice('missing_%s%d' % (c, i), [False, True]):
            cols[c][i] = NAN
    s = {c: env.series(cols[c], idx) for c in need}
    full = [i for i in range(n) if not any(isnan(cols[c][i]) for c in need)]
    f = melodist.fit_angstroem_params if model == 'angstroem' else melodist.fit_bristow_campbell_params
    with stand_ins(env):
        got = list(env.call(f, *[s[c] for c in need]))
        part = {c: env.series([cols[c][i] for i in full], idx[full]) for c in need}
        same = list(f(*[part[c] for c in need]))
    for x, y in zip(got, same):
        env.check_eq('records with a missing input do not matter', x, y, tol=None if env.symbolic else 1e-6)
    r = [[cols[c][i] for i in full] for c in need]
    if model == 'angstroem':
        def rad(a, b):
            return [(a + b * u / d) * p for u, d, p in zip(r[0], r[1], r[2])]
        if env.symbolic:
            for j in range(2):
                env.check_eq('residuals of the sunshine model', got[j], residuals(rad(*probe(j, 2)), r[3]))
        else:
            u, d, p, o = (np.array(c, dtype=float) for c in r)
            best = np.linalg.lstsq(np.array([p, p * u / d]).T, o, rcond=None)[0]
            for x, y in zip(got, best):
                env.check_eq('residuals of the sunshine model', x, y, tol=1e-5)
    else:
        # dT needs the minimum of the next day, the last day uses its own
        def bias(a, c):
            lo = dict(zip(full, r[0]))
            dt = [hi - (lo[i] + lo.get(i + 1, NAN if i != full[-1] else lo[i])) / 2.0 for i, hi in zip(full, r[1])]
            ok = [k for k in range(len(full)) if not isnan(dt[k])]
            mon = {}
            for k in ok:
                mon.setdefault(idx[full[k]].month, []).append(dt[k])
            t = 0.0
            for k in ok:
                b = 0.036 * np.exp(-0.154 * np.mean(mon[idx[full[k]].month]))
                t = a * (1.0 - np.exp(-b * dt[k] ** c)) * r[2][k] - r[3][k] + t
            return env.abs_(t / float(len(ok)))
        if env.symbolic:
            for j in range(2):
                env.check_eq('bias of the temperature model', got[j], bias(PROBES[j % 2][0], PROBES[j % 2][0] + 2.0))
        else:
            env.check('bias of the temperature model', bias(*[float(g) for g in got]) <= bias(0.75, 2.4) + 1e-6)


def obligations(tier, seed):
    obs = []
    wb = '%d days of hourly wind, %d hours arbitrary'
    obs.append(Ob('wind', wind, dict(start='2016-02-28', n=3, at=(0, 13, 23, 24, 40, 71)), bounds=wb % (3, 6)))
    obs.append(Ob('wind-missing', wind, dict(start='2015-12-31', n=2, at=(0, 13, 30), missing=(5, 13, 24, 47)),
                  bounds=wb % (2, 3) + ', four possibly missing'))
    obs.append(Ob('wind-gone', wind, dict(start='2015-12-30', n=3, at=(0, 30, 60), missing=(30,), gone=1),
                  bounds=wb % (3, 3) + ', a day possibly missing'))
    obs.append(Ob('wind-partial', wind, dict(start='2016-02-28', n=3, at=(10, 30, 60), drop=tuple(range(7)) + (25, 70, 71)),
                  bounds=wb % (3, 3) + ', hours absent at both ends and in between'))
    obs.append(Ob('wind-station', wind, dict(start='2016-02-28', n=2, at=(1, 13, 30), missing=(2,), station=True),
                  bounds=wb % (2, 3) + ', through the station statistics'))
    obs.append(Ob('wind-all', wind, dict(start='2016-02-28', n=2, at=tuple(range(48))), bounds=wb % (2, 48)))
    db = '%d days of hourly temperature (fixed) and humidity, %d hours of it arbitrary'
    obs.append(Ob('dewpoint', dewpoint, dict(start='2016-02-28', n=4, at=(0, 13, 30, 95)), bounds=db % (4, 4)))
    obs.append(Ob('dewpoint-missing', dewpoint, dict(
        start='2015-12-30', n=4, at=(3, 30), missing=[('hum', 4), ('temp', 28), ('hum', 3), ('temp', 50)]),
        bounds=db % (4, 2) + ', four values possibly missing'))
    obs.append(Ob('dewpoint-gone', dewpoint, dict(start='2015-12-30', n=4, at=(3, 80), gone=1),
                  bounds=db % (4, 2) + ', temperature or humidity of a day possibly missing'))
    obs.append(Ob('dewpoint-station', dewpoint, dict(start='2016-02-28', n=3, at=(3, 50), missing=[('hum', 20)],
                                                     station=True),
                  bounds=db % (3, 2) + ', through the station statistics'))
    obs.append(Ob('sunshine', radiation, dict(
        model='angstroem', start='2016-02-26', n=7, at=(0, 3, 6),
        missing=[('ssd', 1), ('dl', 2), ('pot', 4), ('obs', 5)]),
        bounds='7 days, three with arbitrary sunshine and radiation, one input of four other days possibly missing'))
    obs.append(Ob('temperature-range', radiation, dict(
        model='bristcamp', start='2016-02-26', n=7, at=(0, 3), missing=[('pot', 6), ('obs', 6), ('tmax', 6)]),
        bounds='7 days, two with arbitrary radiation, inputs of the last day possibly missing'))
    return obs
