"""C32: DWD and KNMI readers assign times, variables and units correctly"""
import contextlib
import io
import os
import tempfile

import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import NAN, days

ASSUMPTIONS = ['numbers pass the text unchanged; times and names are concrete']

# name in the file, name in the result, range in the file, offset
DWD = [
    ('LUFTTEMPERATUR', 'tmean', (-60.0, 50.0), 273.15), ('LUFTTEMPERATUR_MINIMUM', 'tmin', (-60.0, 50.0), 273.15),
    ('LUFTTEMPERATUR_MAXIMUM', 'tmax', (-60.0, 50.0), 273.15), ('NIEDERSCHLAGSHOEHE', 'precip', (0.0, 300.0), 0.0),
    ('GLOBAL_KW_J', 'glob', (0.0, 4000.0), 0.0), ('REL_FEUCHTE', 'hum', (0.0, 100.0), 0.0),
    ('WINDGESCHWINDIGKEIT', 'wind', (0.0, 60.0), 0.0), ('SONNENSCHEINDAUER', 'sun_h', (0.0, 18.0), 0.0),
]
BYNAME = {d[0]: d for d in DWD}
META = ('Stations_id; Stationshoehe; Geogr.Breite; Geogr.Laenge;von_datum;bis_datum;Stationsname\n'
        '44; 44; 52.9335; 8.2370;19690101;19890630;Oldtown\n'
        '77; 45; 53.5; 9.25;19890701;20141231;Newtown\n')


def dwd_file(env, tag, path, idx, mode, names, missing, last, pad):
    """write one file; -> values by column of the result"""
    sp = ' ' if pad else ''
    lines = ['STATIONS_ID; MESS_DATUM;' + sp + (';' + sp).join(['QUALITAETS_NIVEAU'] + names) + ';eor']
    vals = {BYNAME[n][1]: [] for n in names}
    for i, t in enumerate(idx):
        row = ['77', t.strftime('%Y%m%d' if mode == 'd' else '%Y%m%d%H'), '3']
        for n in names:
            _, c, rng, off = BYNAME[n]
            if (n, i) in missing and env.choice('%s_missing_%s%d' % (tag, c, i), [False, True]):
                row.append(sp + '-999')
                vals[c].append(NAN)
            else:
                x = env.real('%s_%s%d' % (tag, c, i), *rng)
                row.append(sp + '{}'.format(x))
                vals[c].append(x + off)
        lines.append(';'.join(row) + ';eor')
    if last is not None:
        lines.append(last)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return vals


def dwd(env, mode, names, n, start, missing=(), orders=None, last=True, skip=None, pad=True, step=1):
    names = list(names)
    if orders:
        k = env.integer('order', 0, len(orders) - 1)
        names = [names[i] for i in orders[k]]
    idx = (days(start, n * step) if mode == 'd' else pd.date_range(start, periods=n * step, freq='h'))[::step]
    with tempfile.TemporaryDirectory() as tmp:
        meta = os.path.join(tmp, 'meta.txt')
        with open(meta, 'w') as f:
            f.write(META)
        path = os.path.join(tmp, 'data.txt')
        vals = dwd_file(env, 'x', path, idx, mode, names, missing,
                        '\x1a' if last else None, pad)
        k = {} if skip is None else dict(skip_last=skip)
        header, out = env.call(melodist.read_dwd, path, meta, mode=mode, **k)
    check(env, header, out, idx, vals, names)


def check(env, header, out, idx, vals, names):
    env.observe(out)
    env.check('every record under its timestamp', [pd.Timestamp(t) for t in out.index] == list(idx))
    env.check('known variables', sorted(out.columns) == sorted(vals))
    env.check('station of the last metadata line', int(header['Stations_id']) == 77
              and str(header['Stationsname']) == 'Newtown')
    env.check('coordinates of the last metadata line', float(header['Breite']) == 53.5
              and float(header['Laenge']) == 9.25)
    if len(out) != len(idx):
        return
    for c in vals:
        if c not in out.columns:
            continue
        for x, y in zip(vals[c], out[c].array):
            if isnan(x):
                env.check_nan('missing codes are missing', y)
            else:
                env.check_not_nan('values present', y)
                if not isnan(y):
                    env.check_eq('value and unit of the own variable', y, x)


def dwd_list(env, start, n):
    """several hourly files with their own hours"""
    full = pd.date_range(start, periods=n + 2, freq='h')
    parts = [(['NIEDERSCHLAGSHOEHE'], full[:n]), (['LUFTTEMPERATUR', 'REL_FEUCHTE'], full[1:n + 1]),
             (['WINDGESCHWINDIGKEIT'], full[2:n + 2])]
    k = env.integer('order', 0, 2)
    parts = parts[k:] + parts[:k]
    vals = {}
    with tempfile.TemporaryDirectory() as tmp:
        meta = os.path.join(tmp, 'meta.txt')
        with open(meta, 'w') as f:
            f.write(META)
        files = []
        for i, (names, idx) in enumerate(parts):
            p = os.path.join(tmp, 'f%d.txt' % i)
            v = dwd_file(env, 'f%d' % i, p, idx, 'h', names, [], '\x1a', True)
            files.append(p)
            for c in v:
                d = dict(zip(idx, v[c]))
                vals[c] = [d.get(t, NAN) for t in full]
        header, out = env.call(melodist.read_dwd, files, meta, mode='h')
    check(env, header, out, full, vals, None)


KNMI = ['DD', 'FH', 'T', 'SQ', 'Q', 'RH', 'U']
KRANGE = dict(FH=(0.0, 400.0), T=(-400.0, 400.0), SQ=(0.0, 10.0), Q=(0.0, 400.0), RH=(-1.0, 500.0),
              U=(0.0, 100.0), DD=(0.0, 360.0))


def knmi_expected(env, v):
    """columns of the result from the numbers of one record"""
    return dict(
        temp=v['T'] if isnan(v['T']) else v['T'] / 10.0 + 273.15,
        precip=v['RH'] if isnan(v['RH']) else env.max_(v['RH'] / 10.0, 0.0),
        glob=v['Q'] if isnan(v['Q']) else v['Q'] * (10000.0 / 3600.0),
        hum=v['U'], wind=v['FH'] if isnan(v['FH']) else v['FH'] / 10.0,
        ssd=v['SQ'] if isnan(v['SQ']) else v['SQ'] * 6.0)


def knmi_file(env, tag, path, hours, order, missing=()):
    lines = ['# comment %d' % i for i in range(31)]
    lines.append('# STN,YYYYMMDD,   HH,' + ','.join('%5s' % c for c in order))
    rows = []
    for i, (d, h) in enumerate(hours):
        v, row = {}, ['  260', d.strftime('%Y%m%d'), '%5d' % h]
        for c in order:
            if (c, i) in missing and env.choice('%s_missing_%s%d' % (tag, c, i), [False, True]):
                v[c] = NAN
                row.append('     ')
            else:
                v[c] = env.real('%s_%s%d' % (tag, c, i), *KRANGE[c])
                row.append('{}'.format(v[c]))
        lines.append(','.join(row))
        rows.append(v)
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return rows


def check_knmi(env, out, hours, rows):
    env.observe(out)
    idx = [d + pd.Timedelta(hours=h) for d, h in hours]
    env.check('every record under its timestamp', list(out.index) == idx)
    env.check('known variables', set(['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']) == set(out.columns))
    if len(out) != len(idx):
        return
    for i, v in enumerate(rows):
        for c, r in knmi_expected(env, v).items():
            if c not in out.columns:
                continue
            y = out[c].iloc[i]
            if isnan(r):
                env.check_nan('missing values are missing', y)
            else:
                env.check_not_nan('values present', y)
                if not isnan(y):
                    env.check_eq('value and unit of the own variable', y, r)


def knmi(env, hours, orders, missing=()):
    order = orders[env.integer('order', 0, len(orders) - 1)]
    hours = [(pd.Timestamp(d), h) for d, h in hours]
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'uurgeg.txt')
        rows = knmi_file(env, 'x', path, hours, order, missing)
        out = env.call(read_knmi_file, path)
    check_knmi(env, out, hours, rows)


def read_knmi_file(path):
    return melodist.data_io.read_single_knmi_file(path)


def knmi_dir(env, parts):
    """all files of a directory; the order of the records of different files is not fixed"""
    rows = {}
    with tempfile.TemporaryDirectory() as tmp:
        for i, hours in enumerate(parts):
            hours = [(pd.Timestamp(d), h) for d, h in hours]
            for (d, h), v in zip(hours, knmi_file(env, 'f%d' % i, os.path.join(tmp, 'f%d.txt' % i), hours, KNMI)):
                rows[d + pd.Timedelta(hours=h)] = v
        with open(os.path.join(tmp, 'other.dat'), 'w') as f:
            f.write('something else\n')
        with contextlib.redirect_stdout(io.StringIO()):
            out = env.call(melodist.data_io.read_knmi_dataset, tmp + os.sep)
    out = out.sort_index()
    keys = sorted(rows)
    check_knmi(env, out, [(k, 0) for k in keys], [rows[k] for k in keys])


def obligations(tier, seed):
    obs = []
    names = [d[0] for d in DWD]
    n = len(names)
    orders = [list(range(n)), list(range(n))[::-1], list(range(3, n)) + [0, 1, 2]]
    for mode, start in (('d', '2014-12-30'), ('h', '2014-12-31 22:00')):
        b = '%d %s, all variables, values symbolic'
        unit = 'days' if mode == 'd' else 'hours'
        obs.append(Ob('dwd-' + mode, dwd, dict(mode=mode, names=names, n=3, start=start, orders=orders),
                      bounds=b % (3, unit) + ', several column orders'))
        obs.append(Ob('dwd-nolast-' + mode, dwd, dict(mode=mode, names=names[:4], n=3, start=start, last=False,
                                                      skip=False), bounds='3 records without a last line to skip'))
        obs.append(Ob('dwd-skip-' + mode, dwd, dict(mode=mode, names=names[2:6], n=2, start=start, last=True,
                                                    skip=True, pad=False), bounds='2 records, unpadded columns'))
        obs.append(Ob('dwd-missing-' + mode, dwd, dict(
            mode=mode, names=['LUFTTEMPERATUR', 'NIEDERSCHLAGSHOEHE', 'LUFTTEMPERATUR_MAXIMUM'], n=3, start=start,
            missing=[('LUFTTEMPERATUR', 0), ('LUFTTEMPERATUR', 2), ('NIEDERSCHLAGSHOEHE', 1),
                     ('LUFTTEMPERATUR_MAXIMUM', 0), ('LUFTTEMPERATUR_MAXIMUM', 1), ('LUFTTEMPERATUR_MAXIMUM', 2)]),
            bounds='3 records, six values possibly missing'))
        obs.append(Ob('dwd-gaps-' + mode, dwd, dict(mode=mode, names=names[:2], n=3, start=start, step=5),
                      bounds='3 records with gaps in time'))
    obs.append(Ob('dwd-list', dwd_list, dict(start='2014-06-30 22:00', n=3), bounds='three files of 3 hours each'))
    hours = [('2014-12-31', 1), ('2014-12-31', 23), ('2014-12-31', 24), ('2015-01-01', 1)]
    korders = [KNMI, KNMI[::-1], KNMI[3:] + KNMI[:3]]
    obs.append(Ob('knmi', knmi, dict(hours=hours[1:], orders=korders),
                  bounds='3 records, values symbolic, several column orders'))
    obs.append(Ob('knmi-missing', knmi, dict(hours=hours, orders=[KNMI], missing=[
        ('T', 0), ('RH', 1), ('Q', 2), ('U', 3), ('FH', 0), ('SQ', 3)]),
        bounds='4 records, six values possibly missing'))
    obs.append(Ob('knmi-directory', knmi_dir, dict(parts=[hours[:2], hours[2:]]), bounds='two files of 2 records'))
    return obs
