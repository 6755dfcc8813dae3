"""C27: vapour pressure and dew point are mutually consistent"""
import numpy as np
import pandas as pd

import melodist
import melodist.util
from engine.harness import Ob, isnan
from .common import check_unchanged, snapshot

T0 = 273.15
SIDES = {'water': (T0, 330.0, False), 'ice': (200.0, T0, True)}
COEF = {'water': (17.62, 243.12), 'ice': (22.46, 272.62)}


def temp_on(env, name, side, lo=None, hi=None):
    l, h, op = SIDES[side]
    return env.real(name, lo if lo is not None else l, hi if hi is not None else h,
                    open_hi=op and hi is None)


def sat(env, t, side):
    a, b = COEF[side]
    return 6.112 * env.exp(a * (t - T0) / (b + (t - T0)))


def wrap(env, vals, container):
    if container == 'series':
        return env.series(vals, pd.date_range('2016-02-28', periods=len(vals), freq='h'))
    return env.array(vals)


def formula(env, sides, container):
    """value of each element by its own temperature and humidity, any mix of sides"""
    t = [temp_on(env, 't%d' % i, s) for i, s in enumerate(sides)]
    h = [env.real('h%d' % i, 0.0, 100.0) for i in range(len(sides))]
    tt, hh = wrap(env, t, container), wrap(env, h, container)
    snaps = [list(tt), list(hh)]
    out = env.call(melodist.util.vapor_pressure, tt, hh)
    env.observe(np.asarray(out, dtype=object))
    out = list(out)
    env.check('one value per element', len(out) == len(sides))
    for i, s in enumerate(sides):
        if isnan(out[i]):
            env.check_not_nan('value for every element', out[i])
            continue
        env.check_eq('pressure of the own temperature and humidity', out[i],
                     sat(env, t[i], s) * h[i] / 100.0, scale=10)
    env.check('inputs unchanged', all(x is y or env.branch(env.eq(x, y)) for x, y in
                                      zip(snaps[0] + snaps[1], list(tt) + list(hh))))


def scalar_humidity(env, sides, container):
    t = [temp_on(env, 't%d' % i, s) for i, s in enumerate(sides)]
    out = list(env.call(melodist.util.vapor_pressure, wrap(env, t, container), 100))
    env.observe(out)
    for i, s in enumerate(sides):
        env.check_eq('saturation pressure', out[i], sat(env, t[i], s), scale=10)


def monotone(env, side):
    """positive, increasing with temperature, proportional to humidity"""
    t1, t2 = temp_on(env, 't1', side), temp_on(env, 't2', side)
    h = env.real('h', 1.0, 100.0)
    env.assume(t1 < t2 - 0.001)
    out = list(env.call(melodist.util.vapor_pressure, env.array([t1, t2, t1]),
                        env.array([h, h, h / 2.0])))
    env.check('positive', out[0] > 0.0)
    env.check('increases with temperature', out[0] < out[1])
    env.check_eq('proportional to humidity', 2.0 * out[2], out[0])


def freezing_point(env):
    """both formulas give the same pressure at the freezing point, water counts at 0 degrees C"""
    h = env.real('h', 0.0, 100.0)
    out = list(env.call(melodist.util.vapor_pressure, env.array([T0]), env.array([h])))
    env.check_eq('6.112 hPa at saturation', out[0], 6.112 * h / 100.0)


def water_at(env, d):
    t = env.real('t', T0, T0 + d)
    h = env.real('h', 10.0, 100.0)
    out = list(env.call(melodist.util.vapor_pressure, env.array([t]), env.array([h])))
    env.check_eq('water formula from the freezing point', out[0], sat(env, t, 'water') * h / 100.0)


def dew_saturated(env, sides, container):
    t = [temp_on(env, 't%d' % i, s) for i, s in enumerate(sides)]
    tt = wrap(env, t, container)
    hh = wrap(env, [100.0] * len(t), container)
    td = list(env.call(melodist.util.dewpoint_temperature, tt, hh))
    env.observe(td)
    for i in range(len(t)):
        if isnan(td[i]):
            env.check_not_nan('dew point of every element', td[i])
        else:
            env.check_eq('dew point of saturated air is its temperature', td[i], t[i], scale=10)
    for x, y in zip(list(tt), t):
        env.check('input unchanged', x is y or env.eq(x, y))


def dew_below(env, side, hlo):
    t = temp_on(env, 't', side)
    h = env.real('h', hlo, 100.0)
    td = list(env.call(melodist.util.dewpoint_temperature, env.array([t]), env.array([h])))
    env.observe(td)
    env.check('dew point does not exceed the temperature', env.le(td[0], t, scale=10))


def dew_inverse(env, side, lo, hi, hlo):
    """saturation pressure at the dew point is the vapour pressure (same side)"""
    t = env.real('t', lo, hi)
    h = env.real('h', hlo, 100.0)
    e = list(env.call(melodist.util.vapor_pressure, env.array([t]), env.array([h])))
    td = list(env.call(melodist.util.dewpoint_temperature, env.array([t]), env.array([h])))
    env.check_eq('saturation pressure at the dew point', sat(env, td[0], side), e[0], scale=10)
    if side == 'ice':
        es = list(env.call(melodist.util.vapor_pressure, env.array(td), 100))
        env.check_eq('saturation pressure at the dew point (code)', es[0], e[0], scale=10)


def obligations(tier, seed):
    obs = []
    for c in ('array', 'series'):
        for sides in (['water', 'ice', 'water'], ['ice', 'ice', 'water'], ['water', 'water', 'ice']):
            nm = ''.join(s[0] for s in sides)
            obs.append(Ob('formula-%s-%s' % (c, nm), formula, dict(sides=sides, container=c),
                          bounds='3 elements on sides %s, temperatures and humidities symbolic' % nm))
            obs.append(Ob('saturation-%s-%s' % (c, nm), scalar_humidity, dict(sides=sides, container=c),
                          bounds='3 elements on sides %s, temperatures symbolic' % nm))
            obs.append(Ob('dew-saturated-%s-%s' % (c, nm), dew_saturated, dict(sides=sides, container=c),
                          bounds='3 elements on sides %s, saturated' % nm))
    for s in SIDES:
        obs.append(Ob('monotone-%s' % s, monotone, dict(side=s), bounds='two temperatures on one side'))
        obs.append(Ob('dew-below-%s' % s, dew_below, dict(side=s, hlo=1.0), bounds='humidity 1-100'))
    obs.append(Ob('dew-inverse-water', dew_inverse, dict(side='water', lo=283.15, hi=330.0, hlo=5.0),
                  bounds='283-330 K, humidity 5-100'))
    obs.append(Ob('dew-inverse-ice', dew_inverse, dict(side='ice', lo=200.0, hi=273.0, hlo=5.0),
                  bounds='200-273 K, humidity 5-100'))
    obs.append(Ob('freezing-point', freezing_point, {}, bounds='0 degrees C, humidity symbolic'))
    obs.append(Ob('water-at-freezing', water_at, dict(d=1.0), bounds='0-1 degrees C'))
    return obs
