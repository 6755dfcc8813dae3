"""shared inputs for the radiation obligations"""
import math

import pandas as pd

from .common import expected_hours, total

SHAPE = [0, 0, 0, 0, 0, 20, 90, 210, 350, 480, 590, 660, 690, 655, 580, 470, 330, 190, 80, 15, 0, 0, 0, 0]


def day_course(env, i, sym_hours, dark=False, scale=1.0):
    if dark:
        return [0.0] * 24
    v = [scale * (x + (3 * i if x else 0)) for x in SHAPE]
    for h in sym_hours:
        v[h] = env.real('pot%d_%d' % (i, h), 50.0, 1000.0)
    return v


def hourly(env, idx, courses):
    return env.series([x for c in courses for x in c], pd.DatetimeIndex(expected_hours(idx)))


def check_scaled(env, label, values, course, mean):
    """values = course scaled to the daily mean, small values set to zero"""
    t = total(course)
    for x, c in zip(values, course):
        if not isinstance(c, float) or c != 0.0:
            r = c * 24.0 / t * mean
            zero = env.and_(env.eq(x, 0.0), env.le(r, 0.01))
            env.check(label, env.or_(zero, env.and_(env.eq(x, r, scale=20), env.le(0.01, x))))
        else:
            env.check_eq('zero where the course is zero', x, 0.0)
        env.check('not negative', env.le(0.0, x, tol=0.0))
