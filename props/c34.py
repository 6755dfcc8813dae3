"""C34: radiation parameters are fitted from and stored for their own months"""
import pandas as pd

import melodist
from engine.harness import Ob, isnan
from .common import NAN, check_unchanged, expected_hours, snapshot, total
from .fits import stand_ins
from .rad import SHAPE

ASSUMPTIONS = ['the optimisers of scipy are replaced by a symmetric function of the data while the code '
               'runs symbolically; replays use the real ones']
SEASONS = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
LON, LAT, TZ = 11.0, 47.0, 1


def groups(how):
    if how == 'all':
        return [list(range(1, 13))]
    if how == 'seasonal':
        return SEASONS
    return [[m] for m in range(1, 13)]


def dates_of(months, per=2, year=2015, firsts=None):
    out = []
    for i, m in enumerate(months):
        for k in range(per):
            out.append(pd.Timestamp(year, m, 1 + k + (3 * i) % 7))
    return pd.DatetimeIndex(sorted(out))


def inputs(env, idx, sym_days, columns, missing=()):
    n = len(idx)
    cols = dict(ssd=[], tmin=[], tmax=[])
    glob = []
    for i, d in enumerate(idx):
        lo = 268.0 + (d.month * 5) % 9 + 0.5 * (i % 2)
        cols['tmin'].append(lo)
        cols['tmax'].append(lo + 5.0 + (d.month * 7) % 11 + 0.25 * (i % 3))
        cols['ssd'].append(env.real('ssd%d' % i, 0.0, 600.0) if i in sym_days
                           else 100.0 + 17.0 * ((i * 5) % 13) + d.month)
        day = [(900.0 if x else 700.0) + 20.0 * ((d.month * 5) % 12) + i + h for h, x in enumerate(SHAPE)]
        if i in sym_days:
            day[0] = env.real('glob%d_0' % i, 700.0, 1000.0)
            day[23] = env.real('glob%d_23' % i, 700.0, 1000.0)
        glob.append(day)
    for c, i in missing:
        if env.choice('missing_%s%d' % (c, i), [False, True]):
            if c == 'glob':
                glob[i] = [NAN] * 24
            else:
                cols[c][i] = NAN
    return {c: cols[c] for c in columns}, glob


def fit(env, how, idx, sym_days, columns=('ssd', 'tmin', 'tmax'), missing=(), daylength=True, before=None,
        default=False, via=None):
    idx = pd.DatetimeIndex(idx)
    cols, glob = inputs(env, idx, sym_days, columns, missing)
    hours = pd.DatetimeIndex(expected_hours(idx))
    data = env.frame(dict(glob=[x for d in glob for x in d]), hours)
    daily = env.frame(dict(cols, precip=[0.0] * len(idx)), idx)
    dl = pd.Series([9.0 + 0.5 * min(d.month, 12 - d.month) + 0.01 * i for i, d in enumerate(idx)], index=idx)
    st = env.call(melodist.StationStatistics, data=data, lon=LON, lat=LAT, timezone=TZ)
    snap, snapd = snapshot(daily), snapshot(st.data)
    with stand_ins(env):
        k = {} if default else dict(how=how)
        if before:
            env.call(st.calc_radiation_stats, daily, dl if daylength else None, how=before)
        env.call(st.calc_radiation_stats, daily, dl if daylength else None, **k)
        got = dict(angstroem=st.glob.angstroem, bristcamp=st.glob.bristcamp)
        pot = env.call(melodist.potential_radiation, hours, LON, LAT, TZ).resample('D').mean().loc[idx]
        obs = [NAN if isnan(d[0]) else total(d) / 24.0 for d in glob]
        check_unchanged(env, 'daily data left unchanged', daily, snap)
        check_unchanged(env, 'observations left unchanged', st.data, snapd)
        for model, need in (('angstroem', ('ssd',)), ('bristcamp', ('tmin', 'tmax'))):
            names = ('a', 'b') if model == 'angstroem' else ('a', 'c')
            fitted = all(c in cols for c in need) and (model == 'bristcamp' or daylength)
            table = got[model]
            env.check('all months', sorted(int(m) for m in table.index) == list(range(1, 13)))
            for g in groups(how):
                if fitted:
                    sel = [i for i, d in enumerate(idx) if d.month in g
                           and not isnan(obs[i]) and not any(isnan(cols[c][i]) for c in need)]
                    gi = idx[sel]
                    s = {c: env.series([cols[c][i] for i in sel], gi) for c in need}
                    o = env.series([obs[i] for i in sel], gi)
                    if model == 'angstroem':
                        ref = melodist.fit_angstroem_params(s['ssd'], dl.loc[gi], pot.loc[gi], o)
                    else:
                        ref = melodist.fit_bristow_campbell_params(s['tmin'], s['tmax'], pot.loc[gi], o)
                else:
                    ref = (0.25, 0.75) if model == 'angstroem' else (0.75, 2.4)
                for m in g:
                    for c, r in zip(names, list(ref)):
                        x = table.loc[m, c]
                        if env.mode == 'conc':
                            tol = 1e-6 if model == 'angstroem' or not fitted else 0.02
                            env.check_eq('parameters of the own months', x, r, tol=tol * (1 + abs(r)))
                        else:
                            env.check_eq('parameters of the own months', x, r)
            # fitted values differ slightly between runs of the optimiser: not for comparison
            if env.mode != 'conc' and not fitted:
                env.observe(list(table[names[0]].array))
            elif not fitted:
                env.observe(list(table[names[0]].array))


def nothing(env, n):
    idx = dates_of([1, 7])
    hours = pd.DatetimeIndex(expected_hours(idx))
    data = env.frame(dict(glob=[env.real('glob%d' % i, 0.0, 1000.0) if i % 24 == 12 else float(i % 24)
                                for i in range(len(hours))]), hours)
    st = env.call(melodist.StationStatistics, data=data, lon=LON, lat=LAT, timezone=TZ)
    env.call(st.calc_radiation_stats)
    for m in range(1, 13):
        for t, c, r in ((st.glob.angstroem, 'a', 0.25), (st.glob.angstroem, 'b', 0.75),
                        (st.glob.bristcamp, 'a', 0.75), (st.glob.bristcamp, 'c', 2.4)):
            env.check_eq('defaults without daily data', t.loc[m, c], r)
    env.observe(st.glob.mean_course)


def obligations(tier, seed):
    obs = []
    year = list(range(1, 13))
    full = dates_of(year)
    twice = full.append(dates_of(year, per=1, year=2016) + pd.Timedelta(days=9))
    b = '%d days in all months; sunshine and two hours of radiation symbolic on %d days'
    sd = (0, 3, 5, 8, 12, 17, 22)
    for how in ('all', 'seasonal', 'monthly'):
        obs.append(Ob('fit-' + how, fit, dict(how=how, idx=full, sym_days=sd), bounds=b % (24, len(sd))))
        obs.append(Ob('years-' + how, fit, dict(how=how, idx=twice, sym_days=(1, 7, 20, 24, 29, 35)),
                      bounds=b % (36, 6)))
        obs.append(Ob('missing-' + how, fit, dict(
            how=how, idx=twice, sym_days=(4, 23, 24), missing=[('ssd', 4), ('tmin', 5), ('tmax', 24),
                                                              ('glob', 12)]),
            bounds=b % (36, 3) + '; values of four days possibly missing'))
    obs.append(Ob('sunshine-only', fit, dict(how='monthly', idx=full, sym_days=sd, columns=('ssd',)),
                  bounds=b % (24, len(sd))))
    obs.append(Ob('temperature-only', fit, dict(how='seasonal', idx=full, sym_days=sd,
                                                columns=('tmin', 'tmax')), bounds=b % (24, len(sd))))
    obs.append(Ob('no-daylength', fit, dict(how='monthly', idx=full, sym_days=sd, daylength=False),
                  bounds=b % (24, len(sd))))
    obs.append(Ob('tmin-only', fit, dict(how='all', idx=full, sym_days=sd, columns=('tmin',)),
                  bounds=b % (24, len(sd))))
    obs.append(Ob('default', fit, dict(how='all', idx=full, sym_days=sd, default=True), bounds=b % (24, len(sd))))
    obs.append(Ob('again', fit, dict(how='all', idx=full, sym_days=sd, before='monthly'),
                  bounds=b % (24, len(sd)) + ', fitted twice'))
    obs.append(Ob('seasonal-again', fit, dict(how='seasonal', idx=full, sym_days=sd, before='all'),
                  bounds=b % (24, len(sd)) + ', fitted twice'))
    obs.append(Ob('nothing', nothing, dict(n=2), bounds='hourly radiation symbolic at noon'))
    return obs
