"""C31: data survive writing to and reading from SMET files"""
import os
import tempfile

import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import NAN, check_unchanged, days, snapshot

ASSUMPTIONS = ['numbers pass the text unchanged or, when formatted, as a number at most half a unit of the '
               'last written digit away; times and names are concrete']
DAILY = ['tmean', 'tmin', 'tmax', 'precip', 'glob', 'hum', 'wind']
HOURLY = ['temp', 'precip', 'glob', 'hum', 'wind']
RANGE = dict(tmean=(200.0, 330.0), tmin=(200.0, 330.0), tmax=(200.0, 330.0), temp=(200.0, 330.0),
             precip=(0.0, 500.0), glob=(0.0, 1200.0), hum=(0.0, 100.0), wind=(0.0, 60.0), snow=(-50.0, 50.0))
META = dict(station_id='S7', station_name='Upper Valley', latitude='47.5', longitude='11.25', altitude='2100',
            nodata='-999', tz='1')


def write_read(env, mode, columns, n, start, missing=(), empty=(), check_nan=None, orders=None, single=False,
               step=None, meta=META):
    cols = list(columns)
    if orders:
        k = env.integer('order', 0, len(orders) - 1)
        cols = [cols[i] for i in orders[k]]
    idx = days(start, n) if mode == 'd' else pd.date_range(start, periods=n, freq=step or 'h')
    vals = {}
    for c in cols:
        vals[c] = []
        for i in range(n):
            if c in empty or ((c, i) in missing and env.choice('missing_%s%d' % (c, i), [False, True])):
                vals[c].append(NAN)
            else:
                vals[c].append(env.real('%s%d' % (c, i), *RANGE[c]))
    df = env.frame(vals, idx)
    snap = snapshot(df)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.smet')
        k = {} if mode == 'h' and env.choice('default_mode', [False, True]) else dict(mode=mode)
        if check_nan is not None:
            k['check_nan'] = check_nan
        env.call(melodist.write_smet, path, df, dict(meta), **k)
        check_unchanged(env, 'data left unchanged', df, snap)
        header, out = env.call(melodist.read_smet, path, mode)
    kept = [c for c in cols if check_nan is False or not all(isnan(x) for x in vals[c])]
    env.check('variables restored', sorted(out.columns) == sorted(kept))
    env.check('timestamps restored', list(out.index) == list(idx))
    env.observe(out)
    for key, v in meta.items():
        env.check('header entries restored', header.get(key) == v)
    if len(out) != n:
        return
    for c in kept:
        if c not in out.columns:
            continue
        for x, y in zip(vals[c], out[c].array):
            if isnan(x):
                env.check_nan('missing values stay missing', y)
            else:
                env.check_not_nan('values restored', y)
                if not isnan(y):
                    env.check('values rounded to two decimals', env.eq(x, y, tol=0.005 + 1e-5))


FIELDS = {'d': dict(tmean='TA', tmin='TMIN', tmax='TMAX', precip='PSUM', glob='ISWR', hum='RH', wind='VW'),
          'h': dict(temp='TA', precip='PSUM', glob='ISWR', hum='RH', wind='VW')}


def read(env, mode, columns, n, start, mult, missing=(), extra_header=()):
    """a file in the format with unit multipliers"""
    idx = days(start, n) if mode == 'd' else pd.date_range(start, periods=n, freq='h')
    lines = ['SMET 1.1 ASCII', '[HEADER]'] + ['%s = %s' % kv for kv in META.items()]
    lines += ['fields = timestamp ' + ' '.join(FIELDS[mode].get(c, c) for c in columns),
              'units_multiplier = 1 ' + ' '.join(repr(m) for m in mult)]
    lines += list(extra_header) + ['[DATA]']
    vals = {c: [] for c in columns}
    for i, t in enumerate(idx):
        row = [t.strftime('%Y-%m-%dT%H:%M')]
        for c in columns:
            if (c, i) in missing and env.choice('missing_%s%d' % (c, i), [False, True]):
                vals[c].append(NAN)
                row.append('-999')
            else:
                x = env.real('%s%d' % (c, i), *RANGE[c])
                vals[c].append(x)
                row.append('{}'.format(x))
        lines.append(' '.join(row))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'x.smet')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        header, out = env.call(melodist.read_smet, path, mode)
    env.observe(out)
    env.check('variables', sorted(out.columns) == sorted(columns))
    env.check('timestamps', list(out.index) == list(idx))
    for key, v in META.items():
        env.check('header entries', header.get(key) == v)
    if len(out) != n:
        return
    for c, m in zip(columns, mult):
        if c not in out.columns:
            continue
        for x, y in zip(vals[c], out[c].array):
            if isnan(x):
                env.check_nan('missing codes are missing', y)
            else:
                env.check_not_nan('values present', y)
                if not isnan(y):
                    env.check_eq('multiplier of the own column', y, x * m)


def obligations(tier, seed):
    obs = []
    for mode, cols, start in (('d', DAILY, '2016-02-28'), ('h', HOURLY, '2015-12-31 22:00')):
        n = len(cols)
        orders = [list(range(n)), list(range(n))[::-1], list(range(2, n)) + [0, 1]]
        b = '3 %s of all variables, values symbolic' % ('days' if mode == 'd' else 'hours')
        obs.append(Ob('roundtrip-' + mode, write_read, dict(mode=mode, columns=cols, n=3, start=start, orders=orders),
                      bounds=b + ', several column orders'))
        some = [cols[0], 'precip', 'wind']
        obs.append(Ob('missing-' + mode, write_read, dict(
            mode=mode, columns=some, n=3, start=start, missing=[(c, i) for c in some[:2] for i in range(3)]),
            bounds='3 records of three variables, each of six values possibly missing'))
        obs.append(Ob('missing-kept-' + mode, write_read, dict(
            mode=mode, columns=some, n=2, start=start, check_nan=False,
            missing=[(c, i) for c in some[:2] for i in range(2)]),
            bounds='2 records of three variables, each of four values possibly missing'))
        obs.append(Ob('empty-' + mode, write_read, dict(
            mode=mode, columns=cols, n=2, start=start, empty=(cols[1], 'hum'), check_nan=True),
            bounds='2 records, two variables without data'))
        obs.append(Ob('empty-kept-' + mode, write_read, dict(
            mode=mode, columns=cols, n=2, start=start, empty=(cols[0], 'hum'), check_nan=False),
            bounds='2 records, two variables without data'))
        obs.append(Ob('single-' + mode, write_read, dict(mode=mode, columns=['hum'], n=1, start=start),
                      bounds='one record of one variable'))
        obs.append(Ob('read-' + mode, read, dict(
            mode=mode, columns=cols[::-1], n=2, start=start, mult=[2.0, 0.5, 10.0, 1.0, 0.01, 3.0, 4.0][:n],
            missing=[(cols[0], 0), ('wind', 1)]), bounds='2 records, symbolic values, distinct multipliers'))
        obs.append(Ob('read-other-' + mode, read, dict(
            mode=mode, columns=['snow', cols[0], 'hum'], n=2, start=start, mult=[1, 1, 100]),
            bounds='2 records, symbolic values, a variable of another name'))
    obs.append(Ob('minutes', write_read, dict(mode='h', columns=['temp', 'precip'], n=4, start='2016-02-29 23:30',
                                              step='30min'), bounds='4 half-hourly records'))
    obs.append(Ob('other-name', write_read, dict(mode='h', columns=['snow', 'temp'], n=2, start='2016-02-29 23:00'),
                  bounds='2 records, a variable of another name'))
    obs.append(Ob('header', write_read, dict(
        mode='h', columns=['temp'], n=1, start='2016-02-29 23:00',
        meta=dict(META, comment='a = b, c', source='x=1')), bounds='header values containing equal signs'))
    return obs
