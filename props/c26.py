"""C26: trimming keeps exactly the full days and gap counting counts every gap"""
import pandas as pd

import melodist
import melodist.util
from engine.harness import Ob
from .common import check_unchanged, snapshot


def trim(env, start, start_hours, n_hours, first, nominal=0):
    """hourly data starting at any hour, of several lengths"""
    h0 = env.integer('start', *start_hours)
    n = env.integer('length', *n_hours)
    shift = first if first is not None else env.integer('first_hour', 0, 23)
    idx = pd.date_range(pd.Timestamp(start) + pd.Timedelta(hours=h0), periods=n, freq='h')
    vals = env.reals('v', n, -50.0, 50.0)
    df = env.frame(dict(a=vals, b=[2.0 * v for v in vals]), idx)
    snap = snapshot(df)
    if shift == 0 and nominal:
        out = env.call(melodist.util.drop_incomplete_days, df)
    else:
        out = env.call(melodist.util.drop_incomplete_days, df, shift=shift)
    last = (shift - 1) % 24
    keep = list(range(n))
    while keep and idx[keep[0]].hour != shift:
        keep.pop(0)
    while keep and idx[keep[-1]].hour != last:
        keep.pop()
    env.check('exactly the full days remain', list(out.index) == [idx[i] for i in keep])
    if len(out) == len(keep):
        for j, i in enumerate(keep):
            env.check_eq('values unchanged', out.a.array[j], vals[i])
            env.check_eq('values unchanged', out.b.array[j], 2.0 * vals[i])
    env.check('columns unchanged', list(out.columns) == ['a', 'b'])
    check_unchanged(env, 'input left unchanged', df, snap)
    env.cover('some full day', len(keep) > 0)


def gaps(env, start, freq_s, n, lo, hi, verbose):
    """nominal time step arbitrary, each step of the series 1x, 2x or 0.5x the base step"""
    idx = [pd.Timestamp(start)]
    steps = []
    for i in range(n):
        k = env.choice('step%d' % i, [1.0, 2.0, 24.0])
        steps.append(k * freq_s)
        idx.append(idx[-1] + pd.Timedelta(seconds=k * freq_s))
    nominal = env.real('timestep', lo, hi)
    df = env.frame(dict(a=[1.0] * (n + 1)), pd.DatetimeIndex(idx))
    got = env.call(melodist.util.detect_gaps, df, nominal, verbose=verbose,
                   print_all=env.choice('print_all', [False, True]))
    if isinstance(got, (int,)) or hasattr(got, 'dtype'):
        got = float(got)
    cnt = 0.0
    for s in steps:
        cnt = cnt + env.ite(env.const(s) != nominal, env.const(1.0), env.const(0.0))
    env.check_eq('number of differing steps', got, cnt)


def many_gaps(env, n, print_max):
    """more gaps than are printed"""
    idx = [pd.Timestamp('2016-02-28')]
    exp = 0
    for i in range(n):
        k = env.choice('gap%d' % i, [True, False])
        exp += k
        idx.append(idx[-1] + pd.Timedelta(hours=2 if k else 1))
    df = env.frame(dict(a=[1.0] * (n + 1)), pd.DatetimeIndex(idx))
    got = env.call(melodist.util.detect_gaps, df, 3600, print_max=print_max, verbose=False)
    env.check('all gaps are counted', int(got) == exp)


def obligations(tier, seed):
    obs = []
    for first in (0, 7, 8, 23):
        obs.append(Ob('trim-first%d' % first, trim, dict(
            start='2015-12-31', start_hours=(0, 23), n_hours=(44, 52), first=first, nominal=1),
            bounds='start at any hour, 44-52 hours, first hour %d, values symbolic' % first))
        obs.append(Ob('trim-short-first%d' % first, trim, dict(
            start='2016-02-29', start_hours=(0, 23), n_hours=(1, 26), first=first),
            bounds='start at any hour, 1-26 hours, first hour %d, values symbolic' % first))
    obs.append(Ob('trim-any-first', trim, dict(
        start='2016-02-28', start_hours=(0, 6), n_hours=(47, 50), first=None),
        bounds='start at 0-6 h, 47-50 hours, any first hour, values symbolic'))
    for f in (3600, 86400, 300):
        obs.append(Ob('gaps-%d' % f, gaps, dict(start='2016-02-27', freq_s=f, n=4, lo=1.0,
                                                hi=2.0e6, verbose=False),
                      bounds='4 steps of 1, 2 or 24 times %d s, nominal step symbolic' % f))
    obs.append(Ob('many-gaps', many_gaps, dict(n=8, print_max=3),
                  bounds='8 steps, every pattern of gaps'))
    return obs
