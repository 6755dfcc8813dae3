"""obligations that are decided once more after other calls

For each property some obligations are repeated after a rehearsal of the same and of another
obligation on fixed inputs, so that results that depend on earlier calls are noticed.  (name,
rehearsed before)
"""
from engine.harness import Ob

PAIRS = {
    'C01': [
        ('same-day', 'mass-second-b-draws2'),
        ('mass-second-b-draws2', 'mass-second-a-draws0'),
        ('mass-second-a-draws0', 'same-day-disagg_prec'),
        ('same-day-disagg_prec', 'same-day'),
        ('any-statistics', 'any-statistics'),
        ('shift-5', 'shift-missing-2'),
        ('shift-missing-2', 'shift+7'),
        ('shift+7', 'shift-missing-0'),
        ('shift-missing-0', 'shift-5'),
    ],
    'C02': [
        ('same-day9', 'missing9'),
        ('missing9', 'missing11'),
        ('missing11', 'lists10'),
        ('lists10', 'same-day9'),
        ('whole9-01', 'whole9-10'),
        ('whole9-10', 'whole10-10'),
        ('whole10-10', 'whole11-01'),
        ('whole11-01', 'whole9-01'),
    ],
    'C03': [
        ('amount-b-3', 'amount-c-levels-3'),
        ('amount-c-levels-3', 'amount-b-2'),
        ('amount-b-2', 'patterns-c'),
        ('patterns-c', 'amount-b-3'),
        ('threshold-b-1', 'threshold-b-0'),
        ('threshold-b-0', 'threshold-c-levels-4'),
        ('threshold-c-levels-4', 'threshold-b-levels-4'),
        ('threshold-b-levels-4', 'threshold-b-1'),
        ('probabilities-isolated-above', 'probabilities-start-above'),
        ('probabilities-start-above', 'probabilities-end-below'),
        ('probabilities-end-below', 'probabilities-level3'),
        ('probabilities-level3', 'probabilities-isolated-above'),
        ('sample-0', 'sample-1'),
        ('sample-1', 'sample-3'),
        ('sample-3', 'sample-2'),
        ('sample-2', 'sample-0'),
    ],
    'C04': [
        ('insert-before-50', 'insert-inside-50'),
        ('insert-inside-50', 'replace'),
        ('replace', 'insert-last-50'),
        ('insert-last-50', 'insert-before-50'),
    ],
    'C05': [
        ('levels-missing', 'levels-value0'),
    ],
    'C06': [
        ('amount1-swapped-levels', 'amount3-swapped-levels'),
        ('amount3-swapped-levels', 'amount2-two'),
        ('amount2-two', 'amount2-swapped-levels'),
        ('amount2-swapped-levels', 'amount1-swapped-levels'),
    ],
    'C07': [
        ('missing-distribute-2019-02-27', 'missing-wind-2016-02-28'),
        ('missing-wind-2016-02-28', 'missing-precip-2019-02-27'),
        ('missing-precip-2019-02-27', 'missing-distribute-2015-12-30'),
        ('missing-distribute-2015-12-30', 'missing-distribute-2019-02-27'),
        ('gaps-wind', 'gaps-precip'),
        ('gaps-precip', 'gaps-distribute'),
        ('gaps-distribute', 'gaps-hum'),
        ('gaps-hum', 'gaps-wind'),
        ('months-wind', 'months-distribute'),
        ('months-distribute', 'months-divide'),
        ('months-divide', 'months-precip'),
        ('months-precip', 'months-wind'),
        ('long-distribute', 'long-precip'),
        ('long-precip', 'long-distribute'),
        ('station', 'station'),
    ],
    'C08': [
        ('shares-function-zero', 'shares-disagg_prec-zero'),
        ('shares-disagg_prec-zero', 'shares-disagg_prec-uniform'),
        ('shares-disagg_prec-uniform', 'all-hours'),
        ('all-hours', 'shares-function-zero'),
    ],
    'C09': [
        ('days-1', 'days-1-night'),
        ('days-1-night', 'days-2-night'),
        ('days-2-night', 'fix-function'),
        ('fix-function', 'days-1'),
    ],
    'C10': [
        ('single', 'values-station'),
        ('values-station', 'values-function'),
        ('values-function', 'missing-function'),
        ('missing-function', 'single'),
    ],
    'C11': [
        ('fix', 'mean-sun_loc'),
        ('mean-sun_loc', 'fix-night'),
        ('fix-night', 'sun'),
        ('sun', 'fix'),
        ('station-sun_loc-2016-03-31', 'station-sun_loc-2016-09-29'),
        ('station-sun_loc-2016-09-29', 'station-sun_loc-2015-12-31'),
        ('station-sun_loc-2015-12-31', 'station-sun_loc_shift-2016-03-31'),
        ('station-sun_loc_shift-2016-03-31', 'station-sun_loc-2016-03-31'),
    ],
    'C12': [
        ('min_max-station', 'min_max-gaps'),
        ('min_max-gaps', 'min_max-months'),
        ('min_max-months', 'mean-months'),
        ('mean-months', 'min_max-station'),
    ],
    'C13': [
        ('sine_mean-1', 'sine_min_max-1'),
        ('sine_min_max-1', 'sine_mean-2'),
        ('sine_mean-2', 'sine_min_max-3'),
        ('sine_min_max-3', 'sine_mean-1'),
    ],
    'C14': [
        ('range-equal-warm', 'range-equal-preserve-warm'),
        ('range-equal-preserve-warm', 'range-month_hour_precip_mean-preserve-warm'),
        ('range-month_hour_precip_mean-preserve-warm', 'range-minimal-cold'),
        ('range-minimal-cold', 'range-equal-warm'),
        ('same-day-equal', 'isolated-equal-preserve'),
        ('isolated-equal-preserve', 'same-day-equal-preserve'),
        ('same-day-equal-preserve', 'isolated-min_max'),
        ('isolated-min_max', 'same-day-equal'),
    ],
    'C15': [
        ('regression-warm-station', 'regression-warm-function'),
        ('regression-warm-function', 'regression-missing'),
        ('regression-missing', 'minimal-warm-station'),
        ('minimal-warm-station', 'regression-warm-station'),
    ],
    'C16': [
        ('min-max-second-day', 'min-max-inside-station'),
        ('min-max-inside-station', 'min-max-inside-function'),
        ('min-max-inside-function', 'min-max-missing'),
        ('min-max-missing', 'min-max-second-day'),
        ('categorical-function', 'categorical-year'),
        ('categorical-year', 'categorical-months'),
        ('categorical-months', 'categorical-station'),
        ('categorical-station', 'categorical-function'),
    ],
    'C17': [
        ('gaps-month_hour_precip_mean', 'station-month_hour_precip_mean'),
        ('station-month_hour_precip_mean', 'station-minimal'),
        ('station-minimal', 'missing-min_max'),
        ('missing-min_max', 'gaps-month_hour_precip_mean'),
    ],
    'C18': [
        ('cosine-fixed-shift-function', 'cosine-gaps'),
        ('cosine-gaps', 'cosine-fixed-shift-station'),
        ('cosine-fixed-shift-station', 'cosine-same-day'),
        ('cosine-same-day', 'cosine-fixed-shift-function'),
        ('equal-draws-station', 'equal-draws-function'),
        ('equal-draws-function', 'equal-draws-station'),
        ('random-same-day', 'random'),
        ('random', 'random-same-day'),
    ],
    'C19': [
        ('station-own', 'single'),
        ('single', 'pot_rad-function'),
        ('pot_rad-function', 'mean_course-missing'),
        ('mean_course-missing', 'station-own'),
    ],
    'C20': [
        ('station', 'monthly'),
        ('monthly', 'monthly-dark'),
        ('monthly-dark', 'monthly-dark-pot'),
        ('monthly-dark-pot', 'station'),
    ],
    'C21': [
        ('daily-one-constant', 'daily-one-monthly'),
        ('daily-one-monthly', 'daily-years-all'),
        ('daily-years-all', 'daily-year-all'),
        ('daily-year-all', 'daily-one-constant'),
    ],
    'C22': [
        ('down-2016-12-31-12:00', 'cloud-down-2016-03-20-08:30'),
        ('cloud-down-2016-03-20-08:30', 'cloud-down-2015-12-21-13:00'),
        ('cloud-down-2015-12-21-13:00', 'cloud-down-2016-02-29-16:00'),
        ('cloud-down-2016-02-29-16:00', 'down-2016-12-31-12:00'),
        ('noon0', 'noon0'),
    ],
    'C23': [
        ('night-2016-03-20', 'night-2016-12-31'),
        ('night-2016-12-31', 'night-2016-09-23'),
        ('night-2016-09-23', 'day-2016-12-31'),
        ('day-2016-12-31', 'night-2016-03-20'),
        ('move30-2', 'move30-2'),
        ('equator', 'equator'),
        ('several', 'several'),
    ],
    'C24': [
        ('hourly-subsets-2015-12-29', 'hourly-subsets-2016-02-26'),
        ('hourly-subsets-2016-02-26', 'five-minute-subsets-2016-02-27'),
        ('five-minute-subsets-2016-02-27', 'level9-subsets-2015-12-30'),
        ('level9-subsets-2015-12-30', 'hourly-subsets-2015-12-29'),
        ('five-minute-positions', 'level9-positions'),
        ('level9-positions', 'level11-positions'),
        ('level11-positions', 'hourly-positions'),
        ('hourly-positions', 'five-minute-positions'),
        ('five-minute-single', 'hourly-single'),
        ('hourly-single', 'level9-single'),
        ('level9-single', 'level11-single'),
        ('level11-single', 'five-minute-single'),
        ('hourly-values', 'hourly-values'),
    ],
    'C25': [
        ('empty-day-glob', 'empty-day-precip'),
        ('empty-day-precip', 'ssd-2016-02-28'),
        ('ssd-2016-02-28', 'ssd-2015-12-30'),
        ('ssd-2015-12-30', 'empty-day-glob'),
        ('absent-short', 'absent-partial'),
        ('absent-partial', 'absent-scattered'),
        ('absent-scattered', 'absent-day'),
        ('absent-day', 'absent-short'),
    ],
    'C26': [
        ('trim-first23', 'trim-first0'),
        ('trim-first0', 'trim-first7'),
        ('trim-first7', 'trim-short-first23'),
        ('trim-short-first23', 'trim-first23'),
        ('gaps-86400', 'gaps-300'),
        ('gaps-300', 'gaps-3600'),
        ('gaps-3600', 'gaps-86400'),
        ('many-gaps', 'many-gaps'),
    ],
    'C27': [
        ('formula-array-wiw', 'formula-array-wwi'),
        ('formula-array-wwi', 'formula-array-iiw'),
        ('formula-array-iiw', 'formula-series-wiw'),
        ('formula-series-wiw', 'formula-array-wiw'),
        ('saturation-array-wiw', 'saturation-array-wwi'),
        ('saturation-array-wwi', 'saturation-series-wiw'),
        ('saturation-series-wiw', 'saturation-series-wwi'),
        ('saturation-series-wwi', 'saturation-array-wiw'),
        ('dew-saturated-array-wiw', 'dew-saturated-array-iiw'),
        ('dew-saturated-array-iiw', 'dew-saturated-array-wwi'),
        ('dew-saturated-array-wwi', 'dew-saturated-series-wwi'),
        ('dew-saturated-series-wwi', 'dew-saturated-array-wiw'),
        ('monotone-water', 'monotone-ice'),
        ('monotone-ice', 'monotone-water'),
        ('dew-below-ice', 'dew-below-water'),
        ('dew-below-water', 'dew-below-ice'),
        ('dew-inverse-ice', 'dew-inverse-water'),
        ('dew-inverse-water', 'dew-inverse-ice'),
        ('freezing-point', 'freezing-point'),
        ('water-at-freezing', 'water-at-freezing'),
    ],
    'C28': [
        ('course-plain-statistics', 'course-plain-years'),
        ('course-plain-years', 'course-plain-function'),
        ('course-plain-function', 'course-plain-missing'),
        ('course-plain-missing', 'course-plain-statistics'),
        ('categories', 'categories-same-day'),
        ('categories-same-day', 'categories-years'),
        ('categories-years', 'categories-missing'),
        ('categories-missing', 'categories'),
        ('shift-function', 'shift-statistics'),
        ('shift-statistics', 'shift-site'),
        ('shift-site', 'shift-missing'),
        ('shift-missing', 'shift-function'),
    ],
    'C29': [
        ('single', 'one-day'),
        ('one-day', 'ends'),
        ('ends', 'hourly'),
        ('hourly', 'single'),
    ],
    'C30': [
        ('subsets', 'seasons'),
        ('seasons', 'two-seasons'),
        ('two-seasons', 'one-month'),
        ('one-month', 'subsets'),
    ],
    'C31': [
        ('single-d', 'empty-kept-d'),
        ('empty-kept-d', 'other-name'),
        ('other-name', 'empty-kept-h'),
        ('empty-kept-h', 'single-d'),
        ('read-other-d', 'read-other-h'),
        ('read-other-h', 'read-h'),
        ('read-h', 'read-d'),
        ('read-d', 'read-other-d'),
    ],
    'C32': [
        ('dwd-gaps-h', 'dwd-gaps-d'),
        ('dwd-gaps-d', 'dwd-nolast-d'),
        ('dwd-nolast-d', 'dwd-skip-h'),
        ('dwd-skip-h', 'dwd-gaps-h'),
        ('dwd-list', 'dwd-list'),
        ('knmi', 'knmi'),
        ('knmi-directory', 'knmi-directory'),
    ],
    'C33': [
        ('assign-every-third-day', 'assign-every-third-day-freq'),
        ('assign-every-third-day-freq', 'assign-again'),
        ('assign-again', 'assign-gaps-setter'),
        ('assign-gaps-setter', 'assign-every-third-day'),
        ('only-wind_equal+wind_cosine+wind_random', 'only-temp_course+temp_course_mean'),
        ('only-temp_course+temp_course_mean', 'only-precip_equal+precip_master+precip_cascade'),
        ('only-precip_equal+precip_master+precip_cascade', 'only-glob_pot+glob_ssd+glob_course'),
        ('only-glob_pot+glob_ssd+glob_course', 'only-wind_equal+wind_cosine+wind_random'),
        ('order-temp_course_mean', 'order-temp_fix'),
        ('order-temp_fix', 'order-precip_master'),
        ('order-precip_master', 'order-precip_equal'),
        ('order-precip_equal', 'order-temp_course_mean'),
        ('overwrite', 'overwrite'),
    ],
    'C34': [
        ('fit-all', 'sunshine-only'),
        ('sunshine-only', 'fit-seasonal'),
        ('fit-seasonal', 'fit-monthly'),
        ('fit-monthly', 'fit-all'),
        ('nothing', 'nothing'),
    ],
    'C35': [
        ('wind-partial', 'wind'),
        ('wind', 'wind-gone'),
        ('wind-gone', 'wind-station'),
        ('wind-station', 'wind-partial'),
        ('dewpoint', 'dewpoint-station'),
        ('dewpoint-station', 'dewpoint-gone'),
        ('dewpoint-gone', 'dewpoint-missing'),
        ('dewpoint-missing', 'dewpoint'),
        ('sunshine', 'temperature-range'),
        ('temperature-range', 'sunshine'),
    ],
    'C36': [
        ('cloud-0-2015-12-21-16:30', 'cloud-1-2016-06-21-06:00'),
        ('cloud-1-2016-06-21-06:00', 'up-3-2016-06-21-12:00'),
        ('up-3-2016-06-21-12:00', 'up-1-2016-06-21-12:00'),
        ('up-1-2016-06-21-12:00', 'cloud-0-2015-12-21-16:30'),
        ('flat-down-2016-06-21-03:00', 'flat-down-2016-02-29-07:00'),
        ('flat-down-2016-02-29-07:00', 'flat-down-2015-12-21-08:00'),
        ('flat-down-2015-12-21-08:00', 'flat-down-2016-06-21-03:00'),
    ],
    'C37': [
        ('replace-tmean', 'replace-tmin'),
        ('replace-tmin', 'tmax-constructor'),
        ('tmax-constructor', 'together'),
        ('together', 'replace-tmean'),
        ('frames', 'frames'),
        ('hourly-frames', 'hourly-frames'),
        ('methods-wind-function', 'methods-precipitation-function'),
        ('methods-precipitation-function', 'methods-precipitation-station'),
        ('methods-precipitation-station', 'methods-temperature-station'),
        ('methods-temperature-station', 'methods-wind-function'),
        ('incomplete', 'incomplete'),
        ('levels-9', 'levels-7'),
        ('levels-7', 'levels-hourly'),
        ('levels-hourly', 'levels-9'),
    ],
    'C38': [
        ('equal-percentile', 'equal-pxx'),
        ('equal-pxx', 'equal-threshold'),
        ('equal-threshold', 'equal-p01'),
        ('equal-p01', 'equal-percentile'),
        ('equal-levels', 'equal-levels'),
        ('scale', 'add'),
        ('add', 'scale'),
        ('new', 'new'),
    ],
    'C39': [
        ('deep-thresholds+timezone+wind+wind_attr', 'deep-lon+new_data+season+seasons+sun+table'),
        ('deep-lon+new_data+season+seasons+sun+table', 'deep-angstroem+bristcamp+cascade+course+daily+daily_column'),
        ('deep-angstroem+bristcamp+cascade+course+daily+daily_column', 'deep-delta+disagg+disaggregate+glob_course+hum+lat'),
        ('deep-delta+disagg+disaggregate+glob_course+hum+lat', 'deep-thresholds+timezone+wind+wind_attr'),
        ('collection-copy.copy', 'collection-deepcopy'),
        ('collection-deepcopy', 'collection-copy'),
        ('collection-copy', 'collection-copy.copy'),
        ('statistics', 'statistics'),
    ],
    'C40': [
        ('shift', 'hourly-lists'),
        ('hourly-lists', 'hourly-missing'),
        ('hourly-missing', '9-missing'),
        ('9-missing', 'shift'),
    ],
}


def rehearsed(env, fn, params, before):
    env.rehearse(fn, **params)
    for f, p in before:
        env.rehearse(f, **p)
    fn(env, **params)


def again(prop, obs):
    byname = {o.name: o for o in obs}
    out = []
    for name, other in PAIRS.get(prop, ()):
        o, b = byname[name], byname[other]
        before = [(b.fn, b.params)] if b is not o else []
        out.append(Ob('after-' + name, rehearsed, dict(fn=o.fn, params=o.params, before=before),
                      bounds='%s; after calls with other values%s' % (
                          o.bounds, ' and those of %s' % other if before else ''),
                      tier=o.tier, max_paths=o.max_paths, budget=o.budget, timeout_ms=o.timeout_ms,
                      witnesses=1, weight=o.weight))
    return out
