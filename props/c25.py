"""C25: daily aggregation uses the right statistic of exactly the day's hours"""
import pandas as pd

import melodist
import melodist.util
from engine.harness import Ob, isnan
from .common import NAN, check_unchanged, days, snapshot, total

EXPECT = {
    'temp': [('temp', 'mean'), ('tmin', 'min'), ('tmax', 'max')],
    'precip': [('precip', 'sum')],
    'glob': [('glob', 'mean')],
    'hum': [('hum', 'mean'), ('hum_min', 'min'), ('hum_max', 'max')],
    'wind': [('wind', 'mean')],
    'ssd': [('ssd', 'hours')],
}
RANGE = {'temp': (200.0, 330.0), 'precip': (0.0, 100.0), 'glob': (0.0, 1400.0), 'hum': (0.0, 100.0),
         'wind': (0.0, 60.0), 'ssd': (0.0, 60.0)}


def check_stat(env, kind, got, vals):
    v = [x for x in vals if not isnan(x)]
    if kind == 'sum':
        env.check_eq('sum of the day', got, total(v), scale=24)
        return
    if kind == 'hours':
        env.check_eq('minutes of the day in hours', got, total(v) / 60.0)
        return
    if not v:
        env.check_nan('no value on days without data', got)
        return
    if isnan(got):
        env.check_not_nan('value on days with data', got)
    elif kind == 'mean':
        env.check_eq('mean of the day', got * len(v), total(v), scale=24)
    elif kind == 'min':
        env.check('minimum is a lower bound', env.and_(*[env.le(got, x) for x in v]))
        env.check('minimum is attained', env.or_(*[env.eq(got, x) for x in v]))
    else:
        env.check('maximum is an upper bound', env.and_(*[env.le(x, got) for x in v]))
        env.check('maximum is attained', env.or_(*[env.eq(got, x) for x in v]))


def base_value(var, i):
    lo, hi = RANGE[var]
    return lo + (hi - lo) * ((i * 37 + 11) % 101) / 101.0


def aggregate(env, start, n, variables, sym_at, nan_at, all_nan_day=None):
    idx = pd.date_range(start, periods=24 * n, freq='h')
    cols = {}
    for var in variables:
        vals = []
        for i in range(24 * n):
            if i // 24 == all_nan_day:
                vals.append(NAN)
            elif i in nan_at and env.choice('%s%d_missing' % ('v', i), [True, False]):
                vals.append(NAN)
            elif i in sym_at:
                vals.append(env.real('%s%d' % (var, i), *RANGE[var]))
            else:
                vals.append(base_value(var, i))
        cols[var] = vals
    df = env.frame(cols, idx)
    snap = snapshot(df)
    out = env.call(melodist.util.daily_from_hourly, df)
    env.observe(out)
    names = [nm for v in variables for nm, _ in EXPECT[v]]
    env.check('exactly the variables of the input', sorted(out.columns) == sorted(names))
    env.check('one row per day', [pd.Timestamp(x) for x in out.index] == list(days(start, n)))
    for var in variables:
        for nm, kind in EXPECT[var]:
            if nm in out.columns and len(out) == n:
                for d in range(n):
                    check_stat(env, kind, list(out[nm].array)[d], cols[var][24 * d: 24 * d + 24])
    check_unchanged(env, 'input left unchanged', df, snap)


def irregular(env, start, n, variables, absent, sym_at):
    """records with absent hours: the statistics of a day use whatever records it has"""
    idx = pd.date_range(start, periods=24 * n, freq='h')
    keep = [i for i in range(24 * n) if i not in absent]
    cols = {v: [env.real('%s%d' % (v, i), *RANGE[v]) if i in sym_at else base_value(v, i) for i in keep]
            for v in variables}
    out = env.call(melodist.util.daily_from_hourly, env.frame(cols, idx[keep]))
    env.observe(out)
    pos = {pd.Timestamp(d): j for j, d in enumerate(out.index)}
    for d in range(n):
        at = [k for k, i in enumerate(keep) if i // 24 == d]
        day = idx[24 * d]
        if not at:
            continue
        env.check('a row for every day with records', day in pos)
        for var in variables:
            for nm, kind in EXPECT[var]:
                if nm in out.columns and day in pos:
                    check_stat(env, kind, list(out[nm].array)[pos[day]], [cols[var][k] for k in at])


def obligations(tier, seed):
    obs = []
    b = '%d days from %s; hours %s symbolic, hours %s possibly missing, other hours fixed'
    for start in ('2016-02-28', '2015-12-30'):
        for var in EXPECT:
            at, na = (0, 1, 12, 23, 24, 47, 48), (1, 23, 24)
            if len(EXPECT[var]) == 1:
                at = tuple(range(72))
            obs.append(Ob('%s-%s' % (var, start), aggregate, dict(
                start=start, n=3, variables=[var], sym_at=at, nan_at=na),
                bounds=b % (3, start, at if len(at) < 20 else 'all', na)))
        obs.append(Ob('all-%s' % start, aggregate, dict(
            start=start, n=2, variables=list(EXPECT), sym_at=(0, 23, 24), nan_at=(5,)),
            bounds=b % (2, start, (0, 23, 24), (5,)) + '; all variables together'))
    for var in ('temp', 'hum', 'wind', 'glob', 'precip', 'ssd'):
        obs.append(Ob('empty-day-%s' % var, aggregate, dict(
            start='2016-12-30', n=3, variables=[var], sym_at=(5, 50), nan_at=(), all_nan_day=1),
            bounds='3 days, one without any value'))
    obs.append(Ob('reordered', aggregate, dict(
        start='2016-02-29', n=2, variables=['wind', 'hum', 'temp'], sym_at=(23, 24), nan_at=(0,)),
        bounds='subset of variables in another order'))
    for t, absent in (('partial', tuple(range(9)) + tuple(range(60, 72))), ('scattered', (3, 4, 23, 24, 30, 47, 71)),
                      ('day', tuple(range(24, 48))), ('short', tuple(range(0, 23)) + tuple(range(49, 72)))):
        obs.append(Ob('absent-%s' % t, irregular, dict(
            start='2016-02-28', n=3, variables=list(EXPECT), absent=absent, sym_at=(1, 23, 48)),
            bounds='3 days without the records of hours %s' % (absent,)))
    return obs
