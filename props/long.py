"""obligations repeated on records of more than a year

Most days hold fixed values (different for each day), the values of a few days are arbitrary.
"""
import pandas as pd

from engine.harness import Ob

START = '2015-05-30'
N = 400
AT = (0, 1, 275, 276, 398, 399)  # the first and last days and around 29 February 2016
FEW = (0, 275, 399)
DATES = [str(d.date()) for d in pd.date_range(START, periods=N, freq='D')]
DAYS = dict(start=START, n=N)

MIDDLE = (275,)


def kinds(n, sym=None, wet='wet'):
    """wet, dry and missing days"""
    k = [[wet, 'dry', wet, wet, 'nan', wet, wet, wet, 'nan', 'dry', 'dry', wet][i % 12] for i in range(n)]
    if sym is not None:
        k[275] = sym
    return k


# property: (obligation, changed parameters[, days with arbitrary values])
LONG = {
    'C01': [('mass-mixed-a-draws0', dict(start=START, kinds=kinds(N), symbolic_at=[]), MIDDLE)],
    'C02': [('mass9-mixed', dict(dates=DATES[:50], kinds=kinds(50), symbolic_at=[]), (47,))],
    'C03': [('amount-a-0', dict(start=START, kinds=[k if k != 'nan' else 'dry' for k in kinds(N, 'sym')]), MIDDLE),
            ('amount-a-levels-0', dict(start=START, kinds=[k if k != 'nan' else 'dry' for k in kinds(N, 'sym')]),
             MIDDLE)],
    'C06': [('amount0-four', dict(dates=DATES, kinds=kinds(N, 'sym')), MIDDLE),
            ('amount0-four-rev', dict(dates=DATES, kinds=kinds(N, 'sym')), MIDDLE)],
    'C07': [('missing-distribute-2015-12-30', DAYS, FEW), ('missing-hum-2015-12-30', DAYS, FEW), ('missing-wind-2015-12-30', DAYS, FEW),
            ('missing-precip-2015-12-30', DAYS, FEW)],
    'C08': [('shares-function-uniform', dict(DAYS, sym_day=275, nan_at=276)),
            ('shares-function-zero', dict(DAYS, sym_day=399, nan_at=398))],
    'C09': [('fix-function', DAYS), ('fix-function-night', DAYS)],
    'C10': [('values-function', DAYS), ('missing-function', DAYS, FEW)],
    'C11': [('fix', DAYS)],
    'C12': [('min_max-function', dict(dates=DATES, sym_hours=(0, 13))),
            ('mean-function', dict(dates=DATES, sym_hours=(0, 13)))],
    'C14': [('isolated-' + m, dict(DAYS, nan_day=275)) for m in (
        'equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max', 'month_hour_precip_mean',
        'equal-preserve')],
    'C15': [('minimal-warm-function', dict(DAYS, tmin=[(275.0, 290.0)] * N)),
            ('linear-warm-function', dict(DAYS, tmin=[(275.0, 290.0)] * N))],
    'C16': [('min-max-inside-function', DAYS), ('categorical-function', DAYS)],
    'C17': [('limits-equal', DAYS)],
    'C18': [('cosine-function', DAYS), ('equal-draws-function', DAYS)],
    'C19': [('pot_rad-function', DAYS), ('mean_course-function', DAYS)],
    'C20': [('monthly', dict(dates=DATES)), ('constant', dict(dates=DATES))],
    'C21': [('daily-month-constant', dict(dates=DATES, sym_days=(399,)))],
    'C23': [('several', dict(dates=DATES))],
    'C25': [('temp-2016-02-28', dict(DAYS, sym_at=(0, 6600, 9599), nan_at=(1, 6601)))],
    'C28': [('course-plain-function', dict(dates=DATES, sym_hours=(0, 23))),
            ('categories', dict(dates=DATES, sym_hours=(0, 23)), MIDDLE)],
    'C29': [('three', DAYS)],
    'C31': [('roundtrip-d', DAYS), ('roundtrip-h', DAYS)],
    'C33': [('assign-gaps-setter', DAYS)],
    'C35': [('wind', dict(DAYS, at=(0, 6600, 9599))), ('dewpoint', dict(DAYS, at=(0, 6600, 9599)))],
    'C37': [('tmin-setter', DAYS)],
}


def sparse(env, fn, params, at):
    env.sparse = set(at)
    fn(env, **params)


def long(prop, obs):
    byname = {o.name: o for o in obs}
    out = []
    for name, change, *at in LONG.get(prop, ()):
        o = byname[name]
        at = at[0] if at else AT
        out.append(Ob('long-' + name, sparse, dict(fn=o.fn, params=dict(o.params, **change), at=at),
                      bounds='as %s with 400 days, values arbitrary on the days %s' % (name, at),
                      tier=o.tier, max_paths=o.max_paths, budget=o.budget, timeout_ms=o.timeout_ms,
                      witnesses=1, weight=3))
    return out
