From 3ca0b0e77d152d4c79d350b6b1c627cdf5cc47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 01/25] fix: build the hourly index for daily data with gaps

---
 melodist/util/util.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 7550078..2cbf4af 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -28,17 +28,7 @@ def hourly_index(daily_index, fill_gaps=False):
 
     # remove days that are not in the daily index:
     if not fill_gaps and len(index) > len(daily_index) * 24:
-        df = pd.DataFrame(index=index.date, data=dict(hour=index.hour, keep=True))
-        df.index = df.index.to_datetime()
-        dropdates = list(set(index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h)
-                for y, m, d, h in zip(df.index.year, df.index.month, df.index.day, df.hour)
-            ]
-        )
+        index = index[index.normalize().isin(daily_index.normalize())]
 
     return index
 
-- 
2.43.0


From e804e73593aff7e3c480d41aa36441dc2855b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 02/25] fix: master station disaggregation fails on current
 pandas

---
 melodist/precipitation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index fb8295f..dc979fe 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -386,10 +386,10 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         distribution
     """
 
-    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index))
+    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index), dtype=float)
 
     # set some parameters for cosine function
-    for index_d, precip in precip_daily.iteritems():
+    for index_d, precip in precip_daily.items():
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
-- 
2.43.0


From fe396eada14a62fbbe770b8ad9b846a64aaf74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 03/25] fix: gap detection fails on current pandas

---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 2cbf4af..fb6ca07 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -266,7 +266,7 @@ def detect_gaps(dataframe, timestep, print_all=False, print_max=5, verbose=True)
     for i in range(0, n):
         if i > 0:
             time_diff = dataframe.index[i] - dataframe.index[i - 1]
-            if time_diff.delta / 1e9 != timestep:
+            if time_diff.total_seconds() != timestep:
                 gcount += 1
                 if print_all or (msg_counter <= print_max - 1):
                     if verbose:
-- 
2.43.0


From 165c95d91072325331844e4835e80f8eaf7d3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 04/25] fix: preparing interpolation data fails on current
 pandas

---
 melodist/util/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index fb6ca07..78d1e9c 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -346,16 +346,16 @@ def prepare_interpolation_data(data_daily, column_hours):
     start_date = data_daily.index[0]
     end_date = data_daily.index[-1]
 
-    data = pd.Series()
+    data = []
 
     for column, hour in column_hours.items():
         index = pd.date_range(
             start=start_date.replace(hour=hour), end=end_date.replace(hour=hour), freq='D'
         )
         s = pd.Series(index=index, data=data_daily[column].values)
-        data = data.append(s)
+        data.append(s)
 
-    data = data.sort_index()
+    data = pd.concat(data).sort_index()
     data = data.reindex(hourly_index(data_daily.index))
 
     return data
-- 
2.43.0


From 78b88420ed2387e3202ec039b8762bfd4ae7b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 05/25] fix: temperature disaggregation fails for polar night
 days

---
 melodist/temperature.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index a5ad2b8..f98ba80 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -206,7 +206,7 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars.diff()].astype(
+            transition_days = polars[polars.diff().fillna(False).astype(bool)].astype(
                 int
             )
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
@@ -219,8 +219,8 @@ def disaggregate_temperature(
                 )
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = temp_polars.append(
-                    temp_disagg[melodist.util.hourly_index(add_days)]
+                temp_polars = pd.concat(
+                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
                 ).sort_index()
 
                 for day in polar_to_normal_days:
@@ -236,7 +236,7 @@ def disaggregate_temperature(
                         day.replace(hour=max_loc) + pd.Timedelta(hours=1) : day.replace(hour=23)
                     ] = np.nan
 
-            temp_interp = temp_polars.interpolate(method='linear', limit=23)
+            temp_interp = temp_polars.interpolate(method='linear', limit=23, limit_direction='both')
             temp_disagg[temp_interp.index] = temp_interp
     elif method == 'mean_course_min_max':
         data_daily_as_hourly = data_daily.reindex(temp_disagg.index, method='ffill', limit=23)
-- 
2.43.0


From f6dd5f10eedc977796004301c94f0e60bdf5b99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 06/25] fix: sub-hourly indices for daily data with gaps

---
 melodist/precipitation.py | 51 +++++++++------------------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index dc979fe..46cb08a 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -309,6 +309,10 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
             index=sub_level_index(precip_daily.index, level=level, fill_gaps=False), data=vdn_out
         )
         disagg_precip = precip_sn.resample('5min').sum()
+        # resampling across gaps adds days that are not in the daily data
+        disagg_precip = disagg_precip[
+            disagg_precip.index.normalize().isin(precip_daily.index.normalize())
+        ]
 
     # set missing days to nan again:
     for date in missing_days:
@@ -712,27 +716,9 @@ def sub_level_index(daily_index, level=9, fill_gaps=False):
     # remove days that are not in the daily index:
     time_steps = 2**level
     if not fill_gaps and len(sublevel_index) > len(daily_index) * time_steps:
-        df = pd.DataFrame(
-            index=sublevel_index.date,
-            data=dict(
-                hour=sublevel_index.hour,
-                minute=sublevel_index.minute,
-                second=sublevel_index.second,
-                keep=True,
-            ),
-        )
-        df.index = pd.to_datetime(df.index)
-        dropdates = list(set(sublevel_index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        sublevel_index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        sublevel_index = sublevel_index[
+            sublevel_index.normalize().isin(daily_index.normalize())
+        ]
 
     return sublevel_index
 
@@ -741,27 +727,12 @@ def fmin_index(daily_index, fill_gaps=False):
     fminindex = pd.date_range(
         start=daily_index.min(),
         end=daily_index.max().replace(hour=23, minute=59, second=59),
-        freq='300000L',
+        freq='300000ms',
     )
     # remove days that are not in the daily index:
     if not fill_gaps and len(fminindex) > len(daily_index) * 288:
-        df = pd.DataFrame(
-            index=fminindex.date,
-            data=dict(
-                hour=fminindex.hour, minute=fminindex.minute, second=fminindex.second, keep=True
-            ),
-        )
-        df.index = pd.to_datetime(df.index)  # got a warning at firsr: "to_datetime"is depreciated
-        dropdates = list(set(fminindex.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        fminindex = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        fminindex = fminindex[
+            fminindex.normalize().isin(daily_index.normalize())
+        ]
 
     return fminindex
-- 
2.43.0


From 8a332488c81cc5c8ce516f4fee914ce16e74c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 07/25] fix: reading SMET files fails on current pandas

---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0fe8ba3..70d53ae 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -93,7 +93,7 @@ def read_smet(filename, mode):
 
     data = data * multiplier
 
-    del data.index.name
+    data.index.name = None
 
     # rename columns
     if mode == "d":
-- 
2.43.0


From 4e4f078217c8b667f17e31389f14ba98ea784504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 08/25] fix: minimum and maximum temperature swapped in daily
 SMET files

---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 70d53ae..41e72c4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -244,8 +244,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
     # daily data
     dict_d = {
         'tmean': 'TA',
-        'tmin': 'TMAX',  # no spec
-        'tmax': 'TMIN',  # no spec
+        'tmin': 'TMIN',  # no spec
+        'tmax': 'TMAX',  # no spec
         'precip': 'PSUM',
         'glob': 'ISWR',  # no spec
         'hum': 'RH',
-- 
2.43.0


From 6dd87c818dedd2010a62abaf12b1863b67180425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 09/25] fix: SMET writer does not drop columns without data

---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41e72c4..00bb076 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -263,7 +263,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
 
     if check_nan:
         # get all columns with data
-        datas_in = data.sum().dropna().to_frame().T
+        datas_in = data.dropna(axis=1, how='all')
         # get colums with no datas
         drop = [data_nan for data_nan in data.columns if data_nan not in datas_in]
         # delete columns
-- 
2.43.0


From 86de9bd4591837a307f91372823302d81b870917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 10/25] fix: dropping incomplete days keeps one row of data
 without a full day

---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 78d1e9c..51d08db 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -331,7 +331,7 @@ def drop_incomplete_days(dataframe, shift=0):
             dropped += 1
 
     # drop tailing lines if required
-    for i in range(n - 1, 0, -1):
+    for i in range(n - 1, -1, -1):
         if dataframe.index.hour[i] == last and dataframe.index.minute[i] == 0:
             break
         else:
-- 
2.43.0


From b4cef508311aee1e71446fa212deaec503deb0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 11/25] fix: cascade statistics treat missing values as dry in
 every season

---
 melodist/precipitation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 46cb08a..f18ed83 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -661,10 +661,12 @@ def build_casc(ObsData, hourly=True, level=9, months=None, avg_stats=True, perce
     if months is None:
         months = [np.arange(12) + 1]
 
+    ObsData = ObsData.copy()
+    ObsData['precip'] = ObsData['precip'].fillna(0)
+
     # Parameter estimation for each season
     for cur_months in months:
         vdn = seasonal_subset(ObsData, cur_months)
-        ObsData['precip'] = ObsData['precip'].fillna(0)
 
         casc_opt = melodist.cascade.CascadeStatistics()
         casc_opt.percentile = percentile
-- 
2.43.0


From f68e49dd701f89e7c6e1a75ba7573fd999f81395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 12/25] fix: monthly Bristow-Campbell parameters are never
 fitted

---
 melodist/stationstatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 9e426c0..714ed9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -150,7 +150,7 @@ class StationStatistics(object):
             elif how == 'seasonal':
                 month_ranges = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
             elif how == 'monthly':
-                month_ranges = zip(np.arange(12) + 1)
+                month_ranges = list(zip(np.arange(12) + 1))
 
             def myisin(s, v):
                 return pd.Series(s).isin(v).values
-- 
2.43.0


From a9c49be2c5f10e1626ae9055b06a05d7e17bef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 13/25] fix: statistics covering fewer than 12 months cannot be
 loaded

---
 melodist/stationstatistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 714ed9b..1cf4b9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -263,8 +263,8 @@ class StationStatistics(object):
                     typ='frame',
                 )
                 .sort_index()
-            )[np.arange(1, 12 + 1)]
-            stats.temp.mean_course = mc.sort_index()[np.arange(1, 12 + 1)]
+            )
+            stats.temp.mean_course = mc.sort_index(axis=1)
 
         if stats.hum.month_hour_precip_mean is not None:
             mhpm = pd.read_json(
@@ -283,6 +283,6 @@ class StationStatistics(object):
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-            stats.glob.mean_course = stats.glob.mean_course[np.arange(1, 12 + 1)]
+            stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)
 
         return stats
-- 
2.43.0


From 55fe31b36f6e7858d744931ab657cbf72f22743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 14/25] fix: DWD reader ignores skip_last=False

---
 melodist/data_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 00bb076..f1fffc4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -150,9 +150,11 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         }
 
         # ---read data------------------
-        if skip_last is not None:
+        if skip_last:
             num_lines = sum(1 for line in open(filename))
             skip_last = [num_lines - 1]
+        else:
+            skip_last = None
 
         # hourly data must be parsed by custom definition
         if mode == "d":
-- 
2.43.0


From 4f275a2c5ce8bf74754332d241af7becceaa9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 15/25] fix: reading hourly DWD files fails on current pandas

---
 melodist/data_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index f1fffc4..c6a5efe 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -184,9 +184,10 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
                 sep=';',
                 na_values='-999',
                 index_col=' MESS_DATUM',
-                date_parser=date_parser,
+                dtype={' MESS_DATUM': str},
                 skiprows=skip_last,
             )
+            data.index = pd.DatetimeIndex([date_parser(d) for d in data.index])
 
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
-- 
2.43.0


From 90b23e47ab91d348f648eafe1bb5ba58d696fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 16/25] fix: reading KNMI files fails on current pandas

---
 melodist/data_io.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index c6a5efe..1676a0c 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -323,18 +323,15 @@ def read_single_knmi_file(filename):
     """
     hourly_data_obs_raw = pd.read_csv(
         filename,
-        parse_dates=[['YYYYMMDD', 'HH']],
-        date_parser=lambda yyyymmdd, hh: pd.datetime(
-            int(str(yyyymmdd)[0:4]), int(str(yyyymmdd)[4:6]), int(str(yyyymmdd)[6:8]), int(hh) - 1
-        ),
         skiprows=31,
         skipinitialspace=True,
         na_values='',
-        keep_date_col=True,
     )
 
-    hourly_data_obs_raw.index = hourly_data_obs_raw['YYYYMMDD_HH']
-    hourly_data_obs_raw.index = hourly_data_obs_raw.index + pd.Timedelta(hours=1)
+    hourly_data_obs_raw.index = pd.DatetimeIndex(
+        pd.to_datetime(hourly_data_obs_raw['YYYYMMDD'].astype(str), format='%Y%m%d')
+        + pd.to_timedelta(hourly_data_obs_raw['HH'], unit='h')
+    )
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
 
-- 
2.43.0


From 82ce06dd377a1dc2cc3a26af9f67673db3dc29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 17/25] fix: radiation is missing on days without potential
 radiation

---
 melodist/radiation.py | 689 +++++++++++++++++++++---------------------
 1 file changed, 345 insertions(+), 344 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 325808c..8c6e7d9 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -1,344 +1,345 @@
-################################################################################
-# This file is part of MELODIST - MEteoroLOgical observation time series       #
-# DISaggregation Tool.                                                         #
-#                                                                              #
-# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
-# Thomas Marke                                                                 #
-#                                                                              #
-# MELODIST is free software: you can redistribute it and/or modify it under    #
-# the terms of the GNU General Public License as published by the Free         #
-# Software Foundation, either version 3 of the License, or (at your option)    #
-# any later version.                                                           #
-#                                                                              #
-# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
-# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
-# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
-# details.                                                                     #
-#                                                                              #
-# You should have received a copy of the GNU General Public License along with #
-# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
-################################################################################
-import numpy as np
-import pandas as pd
-import scipy.optimize
-
-import melodist.util
-
-"""
-This routine diaggregates daily values of global radiation data to hourly values
-"""
-
-
-def disaggregate_radiation(
-    data_daily,
-    sun_times=None,
-    pot_rad=None,
-    method='pot_rad',
-    angstr_a=0.25,
-    angstr_b=0.5,
-    bristcamp_a=0.75,
-    bristcamp_c=2.4,
-    mean_course=None,
-):
-    """general function for radiation disaggregation
-
-    Args:
-        daily_data: daily values
-        sun_times: daily dataframe including results of the util.sun_times function
-        pot_rad: hourly dataframe including potential radiation
-        method: keyword specifying the disaggregation method to be used
-        angstr_a: parameter a of the Angstrom model (intercept)
-        angstr_b: parameter b of the Angstrom model (slope)
-        mean_course: monthly values of the mean hourly radiation course
-
-    Returns:
-        Disaggregated hourly values of shortwave radiation.
-    """
-    # check if disaggregation method has a valid value
-    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
-        raise ValueError('Invalid option')
-
-    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
-
-    if method == 'mean_course':
-        assert mean_course is not None
-
-        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
-        pot_rad[:] = (
-            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
-        )
-    else:
-        assert pot_rad is not None
-
-    pot_rad_daily = pot_rad.resample('D').mean()
-
-    if method in ('pot_rad', 'mean_course'):
-        globalrad = data_daily.glob
-    elif method == 'pot_rad_via_ssd':
-        # in this case use the Angstrom model
-        globalrad = pd.Series(index=data_daily.index, data=0.0)
-        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
-        globalrad[dates] = angstroem(
-            data_daily.ssd[dates],
-            sun_times.daylength[dates],
-            pot_rad_daily[dates],
-            angstr_a,
-            angstr_b,
-        )
-    elif method == 'pot_rad_via_bc':
-        # using data from Bristow-Campbell model
-        globalrad = bristow_campbell(
-            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
-        )
-
-    globalrad_equal = globalrad.reindex(
-        pot_rad.index, method='ffill'
-    )  # hourly values (replicate daily mean value for each hour)
-    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
-    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
-    glob_disagg[glob_disagg < 1e-2] = 0.0
-
-    return glob_disagg
-
-
-def potential_radiation(
-    dates,
-    lon,
-    lat,
-    timezone,
-    terrain_slope=0,
-    terrain_slope_azimuth=0,
-    cloud_fraction=0,
-    split=False,
-):
-    """
-    Calculate potential shortwave radiation for a specific location and time.
-
-    This routine calculates global radiation as described in:
-    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
-    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
-
-    Corrections for eccentricity are carried out following:
-    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
-    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
-
-    Parameters
-    ----------
-    dates : DatetimeIndex or array-like
-        The dates for which potential radiation shall be calculated
-    lon : float
-        Longitude (degrees)
-    lat : float
-        Latitude (degrees)
-    timezone : float
-        Time zone
-    terrain_slope : float, default 0
-        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
-    terrain_slope_azimuth : float, default 0
-        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
-    cloud_fraction : float, default 0
-        Cloud fraction between 0 and 1
-    split : boolean, default False
-        If True, return a DataFrame containing direct and diffuse radiation,
-        otherwise return a Series containing total radiation
-    """
-    solar_constant = 1367.0
-    days_per_year = 365.25
-    tropic_of_cancer = np.deg2rad(23.43697)
-    solstice = 173.0
-
-    dates = pd.DatetimeIndex(dates)
-    dates_hour = np.array(dates.hour)
-    dates_minute = np.array(dates.minute)
-    day_of_year = np.array(dates.dayofyear)
-
-    # compute solar decline in rad
-    solar_decline = tropic_of_cancer * np.cos(
-        2.0 * np.pi * (day_of_year - solstice) / days_per_year
-    )
-
-    # compute the sun hour angle in rad
-    standard_meridian = timezone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
-    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
-
-    # get solar zenith angle
-    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
-        solar_decline
-    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
-    solar_zenith_angle = np.arccos(cos_solar_zenith)
-
-    # compute transmissivities for direct and diffus radiation using cloud fraction
-    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
-    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
-
-    # modify solar constant for eccentricity
-    beta = 2.0 * np.pi * (day_of_year / days_per_year)
-    radius_ratio = (
-        1.00011
-        + 0.034221 * np.cos(beta)
-        + 0.00128 * np.sin(beta)
-        + 0.000719 * np.cos(2.0 * beta)
-        + 0.000077 * np.sin(2 * beta)
-    )
-    solar_constant_times_radius_ratio = solar_constant * radius_ratio
-
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
-    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
-        solar_zenith_angle
-    ) * np.cos(mu - terrain_slope_azimuth)
-
-    # get total shortwave radiation
-    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-    diffuse_radiation = (
-        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
-    )
-    direct_radiation = direct_radiation.clip(min=0)
-
-    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
-
-    if split:
-        return df
-    else:
-        return df.direct + df.diffuse
-
-
-def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
-    """calculates potential shortwave radiation based on minimum and maximum temperature
-
-    This routine calculates global radiation as described in:
-    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
-    incoming solar radiation and daily maximum and minimum temperature.
-    Agricultural and forest meteorology 31.2 (1984): 159-166.
-
-    Args:
-        daily_data: time series (daily data) including at least minimum and maximum temeprature
-        pot_rad_daily: mean potential daily radiation
-        A: parameter A of the Bristow-Campbell model
-        C: parameter C of the Bristow-Campbell model
-    Returns:
-        series of potential shortwave radiation
-    """
-
-    assert tmin.index.equals(tmax.index)
-
-    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
-    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
-    temp['tmin_nextday'] = temp.tmin
-    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
-
-    temp = temp.loc[tmin.index]
-    pot_rad_daily = pot_rad_daily.loc[tmin.index]
-
-    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
-
-    dT_m_avg = dT.groupby(dT.index.month).mean()
-    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
-    B.index = temp.index
-
-    if isinstance(A, pd.Series):
-        months = temp.index.month
-        A = A.loc[months].values
-        C = C.loc[months].values
-
-    transmissivity = A * (1 - np.exp(-B * dT**C))
-    R0 = transmissivity * pot_rad_daily
-
-    return R0
-
-
-def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
-    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    tmin : Series
-        Observed daily minimum temperature.
-
-    tmax : Series
-        Observed daily maximum temperature.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-
-    def bc_absbias(ac):
-        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
-
-    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
-        how='any'
-    )
-    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
-
-    return res.x
-
-
-def angstroem(ssd, day_length, pot_rad_daily, a, b):
-    """
-    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    a : float
-        First parameter for the Angstroem model (originally 0.25).
-
-    b : float
-        Second parameter for the Angstroem model (originally 0.75).
-    """
-    if isinstance(a, pd.Series):
-        months = ssd.index.month
-        a = a.loc[months].values
-        b = b.loc[months].values
-
-    glob_day = (a + b * ssd / day_length) * pot_rad_daily
-
-    return glob_day
-
-
-def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the a and b parameters for the Angstroem (1924) model using observed daily
-    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-    df = pd.DataFrame(
-        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
-    ).dropna(how='any')
-
-    def angstroem_opt(x, a, b):
-        return angstroem(x[0], x[1], x[2], a, b)
-
-    x = np.array([df.ssd, df.day_length, df.pot])
-    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
-
-    return popt
+################################################################################
+# This file is part of MELODIST - MEteoroLOgical observation time series       #
+# DISaggregation Tool.                                                         #
+#                                                                              #
+# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
+# Thomas Marke                                                                 #
+#                                                                              #
+# MELODIST is free software: you can redistribute it and/or modify it under    #
+# the terms of the GNU General Public License as published by the Free         #
+# Software Foundation, either version 3 of the License, or (at your option)    #
+# any later version.                                                           #
+#                                                                              #
+# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
+# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
+# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
+# details.                                                                     #
+#                                                                              #
+# You should have received a copy of the GNU General Public License along with #
+# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
+################################################################################
+import numpy as np
+import pandas as pd
+import scipy.optimize
+
+import melodist.util
+
+"""
+This routine diaggregates daily values of global radiation data to hourly values
+"""
+
+
+def disaggregate_radiation(
+    data_daily,
+    sun_times=None,
+    pot_rad=None,
+    method='pot_rad',
+    angstr_a=0.25,
+    angstr_b=0.5,
+    bristcamp_a=0.75,
+    bristcamp_c=2.4,
+    mean_course=None,
+):
+    """general function for radiation disaggregation
+
+    Args:
+        daily_data: daily values
+        sun_times: daily dataframe including results of the util.sun_times function
+        pot_rad: hourly dataframe including potential radiation
+        method: keyword specifying the disaggregation method to be used
+        angstr_a: parameter a of the Angstrom model (intercept)
+        angstr_b: parameter b of the Angstrom model (slope)
+        mean_course: monthly values of the mean hourly radiation course
+
+    Returns:
+        Disaggregated hourly values of shortwave radiation.
+    """
+    # check if disaggregation method has a valid value
+    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
+        raise ValueError('Invalid option')
+
+    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
+
+    if method == 'mean_course':
+        assert mean_course is not None
+
+        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
+        pot_rad[:] = (
+            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
+        )
+    else:
+        assert pot_rad is not None
+
+    pot_rad_daily = pot_rad.resample('D').mean()
+
+    if method in ('pot_rad', 'mean_course'):
+        globalrad = data_daily.glob
+    elif method == 'pot_rad_via_ssd':
+        # in this case use the Angstrom model
+        globalrad = pd.Series(index=data_daily.index, data=0.0)
+        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
+        globalrad[dates] = angstroem(
+            data_daily.ssd[dates],
+            sun_times.daylength[dates],
+            pot_rad_daily[dates],
+            angstr_a,
+            angstr_b,
+        )
+    elif method == 'pot_rad_via_bc':
+        # using data from Bristow-Campbell model
+        globalrad = bristow_campbell(
+            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
+        )
+
+    globalrad_equal = globalrad.reindex(
+        pot_rad.index, method='ffill'
+    )  # hourly values (replicate daily mean value for each hour)
+    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
+    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0  # polar night
+    glob_disagg[glob_disagg < 1e-2] = 0.0
+
+    return glob_disagg
+
+
+def potential_radiation(
+    dates,
+    lon,
+    lat,
+    timezone,
+    terrain_slope=0,
+    terrain_slope_azimuth=0,
+    cloud_fraction=0,
+    split=False,
+):
+    """
+    Calculate potential shortwave radiation for a specific location and time.
+
+    This routine calculates global radiation as described in:
+    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
+    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
+
+    Corrections for eccentricity are carried out following:
+    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
+    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
+
+    Parameters
+    ----------
+    dates : DatetimeIndex or array-like
+        The dates for which potential radiation shall be calculated
+    lon : float
+        Longitude (degrees)
+    lat : float
+        Latitude (degrees)
+    timezone : float
+        Time zone
+    terrain_slope : float, default 0
+        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
+    terrain_slope_azimuth : float, default 0
+        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
+    cloud_fraction : float, default 0
+        Cloud fraction between 0 and 1
+    split : boolean, default False
+        If True, return a DataFrame containing direct and diffuse radiation,
+        otherwise return a Series containing total radiation
+    """
+    solar_constant = 1367.0
+    days_per_year = 365.25
+    tropic_of_cancer = np.deg2rad(23.43697)
+    solstice = 173.0
+
+    dates = pd.DatetimeIndex(dates)
+    dates_hour = np.array(dates.hour)
+    dates_minute = np.array(dates.minute)
+    day_of_year = np.array(dates.dayofyear)
+
+    # compute solar decline in rad
+    solar_decline = tropic_of_cancer * np.cos(
+        2.0 * np.pi * (day_of_year - solstice) / days_per_year
+    )
+
+    # compute the sun hour angle in rad
+    standard_meridian = timezone * 15.0
+    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
+
+    # get solar zenith angle
+    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
+        solar_decline
+    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0)
+    solar_zenith_angle = np.arccos(cos_solar_zenith)
+
+    # compute transmissivities for direct and diffus radiation using cloud fraction
+    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
+    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
+
+    # modify solar constant for eccentricity
+    beta = 2.0 * np.pi * (day_of_year / days_per_year)
+    radius_ratio = (
+        1.00011
+        + 0.034221 * np.cos(beta)
+        + 0.00128 * np.sin(beta)
+        + 0.000719 * np.cos(2.0 * beta)
+        + 0.000077 * np.sin(2 * beta)
+    )
+    solar_constant_times_radius_ratio = solar_constant * radius_ratio
+
+    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
+    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
+        solar_zenith_angle
+    ) * np.cos(mu - terrain_slope_azimuth)
+
+    # get total shortwave radiation
+    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
+    diffuse_radiation = (
+        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
+    )
+    direct_radiation = direct_radiation.clip(min=0)
+
+    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
+
+    if split:
+        return df
+    else:
+        return df.direct + df.diffuse
+
+
+def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
+    """calculates potential shortwave radiation based on minimum and maximum temperature
+
+    This routine calculates global radiation as described in:
+    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
+    incoming solar radiation and daily maximum and minimum temperature.
+    Agricultural and forest meteorology 31.2 (1984): 159-166.
+
+    Args:
+        daily_data: time series (daily data) including at least minimum and maximum temeprature
+        pot_rad_daily: mean potential daily radiation
+        A: parameter A of the Bristow-Campbell model
+        C: parameter C of the Bristow-Campbell model
+    Returns:
+        series of potential shortwave radiation
+    """
+
+    assert tmin.index.equals(tmax.index)
+
+    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
+    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
+    temp['tmin_nextday'] = temp.tmin
+    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
+
+    temp = temp.loc[tmin.index]
+    pot_rad_daily = pot_rad_daily.loc[tmin.index]
+
+    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
+
+    dT_m_avg = dT.groupby(dT.index.month).mean()
+    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
+    B.index = temp.index
+
+    if isinstance(A, pd.Series):
+        months = temp.index.month
+        A = A.loc[months].values
+        C = C.loc[months].values
+
+    transmissivity = A * (1 - np.exp(-B * dT**C))
+    R0 = transmissivity * pot_rad_daily
+
+    return R0
+
+
+def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
+    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    tmin : Series
+        Observed daily minimum temperature.
+
+    tmax : Series
+        Observed daily maximum temperature.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+
+    def bc_absbias(ac):
+        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
+
+    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
+        how='any'
+    )
+    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+
+    return res.x
+
+
+def angstroem(ssd, day_length, pot_rad_daily, a, b):
+    """
+    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    a : float
+        First parameter for the Angstroem model (originally 0.25).
+
+    b : float
+        Second parameter for the Angstroem model (originally 0.75).
+    """
+    if isinstance(a, pd.Series):
+        months = ssd.index.month
+        a = a.loc[months].values
+        b = b.loc[months].values
+
+    glob_day = (a + b * ssd / day_length) * pot_rad_daily
+
+    return glob_day
+
+
+def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the a and b parameters for the Angstroem (1924) model using observed daily
+    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+    df = pd.DataFrame(
+        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
+    ).dropna(how='any')
+
+    def angstroem_opt(x, a, b):
+        return angstroem(x[0], x[1], x[2], a, b)
+
+    x = np.array([df.ssd, df.day_length, df.pot])
+    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
+
+    return popt
-- 
2.43.0


From 80e951a67956a53a6692b0c7f648c35c37a20f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 18/25] fix: cascade weight undefined when class probabilities
 sum to less than one

---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index f18ed83..73c46ec 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -260,8 +260,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
 
                     # guess w1:
                     for k in range(0, 7):
+                        w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
                         if rndw <= wxxcum[k, belowabove, vbtype - 1]:
-                            w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
                             break
 
                     vdn_out[j] = w1 * vdn_in[i]
-- 
2.43.0


From 95ff8a4c7b050966b8476a664491428a4521564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:29 +0000
Subject: [PATCH 19/25] fix: potential radiation undefined at the poles and
 with the sun in the zenith

---
 melodist/radiation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 8c6e7d9..8b28d40 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -185,7 +185,9 @@ def potential_radiation(
     )
     solar_constant_times_radius_ratio = solar_constant * radius_ratio
 
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
+    # limit the argument, which may slightly exceed 1 or be undefined with the sun in the zenith
+    sin_zenith = np.sin(solar_zenith_angle).clip(min=1e-9)
+    mu = np.arcsin((np.cos(solar_decline) * np.sin(hour_angle) / sin_zenith).clip(-1, 1))
     cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
         solar_zenith_angle
     ) * np.cos(mu - terrain_slope_azimuth)
-- 
2.43.0


From f4803cbcdfbaf68d766d31137065913d371bf80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:36 +0000
Subject: [PATCH 20/25] fix: temperature shift statistics fail when a whole day
 is missing

---
 melodist/temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index f98ba80..d09359f 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -277,7 +277,8 @@ def get_shift_by_data(temp_hourly, lon, lat, time_zone):
     daily_index = temp_hourly.resample('D').mean().index
     sun_times = melodist.util.get_sun_times(daily_index, lon, lat, time_zone)
 
-    idxmax = temp_hourly.groupby(temp_hourly.index.date).idxmax()
+    temp_obs = temp_hourly.dropna()
+    idxmax = temp_obs.groupby(temp_obs.index.date).idxmax()
     idxmax.index = pd.to_datetime(idxmax.index)
     max_temp_hour_obs = idxmax.dropna().apply(lambda d: d.hour)
     max_temp_hour_pot = sun_times.sunnoon
-- 
2.43.0


From 8e7e5b3a2d8a28e0aae688b3530acf4817d01996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:45 +0000
Subject: [PATCH 21/25] fix: station daily data with a regular step of more
 than one day left days out

---
 melodist/station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/station.py b/melodist/station.py
index 297bb9a..81fbc1d 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -86,7 +86,7 @@ class Station(object):
         assert df.index.resolution == 'day'
         assert df.index.is_monotonic_increasing
 
-        if df.index.freq is None:  # likely some days are missing
+        if df.index.freq != pd.offsets.Day():  # likely some days are missing
             df = df.reindex(pd.date_range(start=df.index[0], end=df.index[-1], freq='D'))
 
         for var in 'tmin', 'tmax', 'tmean':
-- 
2.43.0


From 8c7fc367f30ea319f34371253cb081cebc3186ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:43 +0000
Subject: [PATCH 22/25] fix: SMET header values containing an equal sign were
 cut off

---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 1676a0c..0e1308a 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -72,7 +72,7 @@ def read_smet(filename, mode):
                 break
 
             if in_header:
-                line_split = line.split('=')
+                line_split = line.split('=', 1)
                 k = line_split[0].strip()
                 v = line_split[1].strip()
                 header[k] = v
-- 
2.43.0


From 3f6a9e016885c7525a92c194421c431fb46fb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:36 +0000
Subject: [PATCH 23/25] fix: padded missing code in DWD columns of whole
 numbers not recognised

---
 melodist/data_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0e1308a..b0f2ee3 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -199,6 +199,9 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         # delete columns
         data = data.drop(drop, axis=1)
 
+        # missing values in columns of whole numbers padded with blanks
+        data = data.mask(data == -999)
+
         # convert temperatures to Kelvin (+273.15)
         if 'tmin' in data.columns:
             data["tmin"] = data["tmin"] + 273.15
-- 
2.43.0


From 7918bcac734f9146a2b6050ce15b1b107ff98f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:02 +0000
Subject: [PATCH 24/25] fix: restore the line endings of the radiation module

---
 melodist/radiation.py | 694 +++++++++++++++++++++---------------------
 1 file changed, 347 insertions(+), 347 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 8b28d40..6259ff7 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -1,347 +1,347 @@
-################################################################################
-# This file is part of MELODIST - MEteoroLOgical observation time series       #
-# DISaggregation Tool.                                                         #
-#                                                                              #
-# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
-# Thomas Marke                                                                 #
-#                                                                              #
-# MELODIST is free software: you can redistribute it and/or modify it under    #
-# the terms of the GNU General Public License as published by the Free         #
-# Software Foundation, either version 3 of the License, or (at your option)    #
-# any later version.                                                           #
-#                                                                              #
-# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
-# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
-# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
-# details.                                                                     #
-#                                                                              #
-# You should have received a copy of the GNU General Public License along with #
-# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
-################################################################################
-import numpy as np
-import pandas as pd
-import scipy.optimize
-
-import melodist.util
-
-"""
-This routine diaggregates daily values of global radiation data to hourly values
-"""
-
-
-def disaggregate_radiation(
-    data_daily,
-    sun_times=None,
-    pot_rad=None,
-    method='pot_rad',
-    angstr_a=0.25,
-    angstr_b=0.5,
-    bristcamp_a=0.75,
-    bristcamp_c=2.4,
-    mean_course=None,
-):
-    """general function for radiation disaggregation
-
-    Args:
-        daily_data: daily values
-        sun_times: daily dataframe including results of the util.sun_times function
-        pot_rad: hourly dataframe including potential radiation
-        method: keyword specifying the disaggregation method to be used
-        angstr_a: parameter a of the Angstrom model (intercept)
-        angstr_b: parameter b of the Angstrom model (slope)
-        mean_course: monthly values of the mean hourly radiation course
-
-    Returns:
-        Disaggregated hourly values of shortwave radiation.
-    """
-    # check if disaggregation method has a valid value
-    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
-        raise ValueError('Invalid option')
-
-    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
-
-    if method == 'mean_course':
-        assert mean_course is not None
-
-        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
-        pot_rad[:] = (
-            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
-        )
-    else:
-        assert pot_rad is not None
-
-    pot_rad_daily = pot_rad.resample('D').mean()
-
-    if method in ('pot_rad', 'mean_course'):
-        globalrad = data_daily.glob
-    elif method == 'pot_rad_via_ssd':
-        # in this case use the Angstrom model
-        globalrad = pd.Series(index=data_daily.index, data=0.0)
-        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
-        globalrad[dates] = angstroem(
-            data_daily.ssd[dates],
-            sun_times.daylength[dates],
-            pot_rad_daily[dates],
-            angstr_a,
-            angstr_b,
-        )
-    elif method == 'pot_rad_via_bc':
-        # using data from Bristow-Campbell model
-        globalrad = bristow_campbell(
-            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
-        )
-
-    globalrad_equal = globalrad.reindex(
-        pot_rad.index, method='ffill'
-    )  # hourly values (replicate daily mean value for each hour)
-    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
-    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
-    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0  # polar night
-    glob_disagg[glob_disagg < 1e-2] = 0.0
-
-    return glob_disagg
-
-
-def potential_radiation(
-    dates,
-    lon,
-    lat,
-    timezone,
-    terrain_slope=0,
-    terrain_slope_azimuth=0,
-    cloud_fraction=0,
-    split=False,
-):
-    """
-    Calculate potential shortwave radiation for a specific location and time.
-
-    This routine calculates global radiation as described in:
-    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
-    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
-
-    Corrections for eccentricity are carried out following:
-    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
-    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
-
-    Parameters
-    ----------
-    dates : DatetimeIndex or array-like
-        The dates for which potential radiation shall be calculated
-    lon : float
-        Longitude (degrees)
-    lat : float
-        Latitude (degrees)
-    timezone : float
-        Time zone
-    terrain_slope : float, default 0
-        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
-    terrain_slope_azimuth : float, default 0
-        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
-    cloud_fraction : float, default 0
-        Cloud fraction between 0 and 1
-    split : boolean, default False
-        If True, return a DataFrame containing direct and diffuse radiation,
-        otherwise return a Series containing total radiation
-    """
-    solar_constant = 1367.0
-    days_per_year = 365.25
-    tropic_of_cancer = np.deg2rad(23.43697)
-    solstice = 173.0
-
-    dates = pd.DatetimeIndex(dates)
-    dates_hour = np.array(dates.hour)
-    dates_minute = np.array(dates.minute)
-    day_of_year = np.array(dates.dayofyear)
-
-    # compute solar decline in rad
-    solar_decline = tropic_of_cancer * np.cos(
-        2.0 * np.pi * (day_of_year - solstice) / days_per_year
-    )
-
-    # compute the sun hour angle in rad
-    standard_meridian = timezone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
-    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
-
-    # get solar zenith angle
-    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
-        solar_decline
-    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
-    solar_zenith_angle = np.arccos(cos_solar_zenith)
-
-    # compute transmissivities for direct and diffus radiation using cloud fraction
-    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
-    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
-
-    # modify solar constant for eccentricity
-    beta = 2.0 * np.pi * (day_of_year / days_per_year)
-    radius_ratio = (
-        1.00011
-        + 0.034221 * np.cos(beta)
-        + 0.00128 * np.sin(beta)
-        + 0.000719 * np.cos(2.0 * beta)
-        + 0.000077 * np.sin(2 * beta)
-    )
-    solar_constant_times_radius_ratio = solar_constant * radius_ratio
-
-    # limit the argument, which may slightly exceed 1 or be undefined with the sun in the zenith
-    sin_zenith = np.sin(solar_zenith_angle).clip(min=1e-9)
-    mu = np.arcsin((np.cos(solar_decline) * np.sin(hour_angle) / sin_zenith).clip(-1, 1))
-    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
-        solar_zenith_angle
-    ) * np.cos(mu - terrain_slope_azimuth)
-
-    # get total shortwave radiation
-    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-    diffuse_radiation = (
-        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
-    )
-    direct_radiation = direct_radiation.clip(min=0)
-
-    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
-
-    if split:
-        return df
-    else:
-        return df.direct + df.diffuse
-
-
-def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
-    """calculates potential shortwave radiation based on minimum and maximum temperature
-
-    This routine calculates global radiation as described in:
-    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
-    incoming solar radiation and daily maximum and minimum temperature.
-    Agricultural and forest meteorology 31.2 (1984): 159-166.
-
-    Args:
-        daily_data: time series (daily data) including at least minimum and maximum temeprature
-        pot_rad_daily: mean potential daily radiation
-        A: parameter A of the Bristow-Campbell model
-        C: parameter C of the Bristow-Campbell model
-    Returns:
-        series of potential shortwave radiation
-    """
-
-    assert tmin.index.equals(tmax.index)
-
-    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
-    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
-    temp['tmin_nextday'] = temp.tmin
-    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
-
-    temp = temp.loc[tmin.index]
-    pot_rad_daily = pot_rad_daily.loc[tmin.index]
-
-    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
-
-    dT_m_avg = dT.groupby(dT.index.month).mean()
-    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
-    B.index = temp.index
-
-    if isinstance(A, pd.Series):
-        months = temp.index.month
-        A = A.loc[months].values
-        C = C.loc[months].values
-
-    transmissivity = A * (1 - np.exp(-B * dT**C))
-    R0 = transmissivity * pot_rad_daily
-
-    return R0
-
-
-def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
-    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    tmin : Series
-        Observed daily minimum temperature.
-
-    tmax : Series
-        Observed daily maximum temperature.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-
-    def bc_absbias(ac):
-        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
-
-    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
-        how='any'
-    )
-    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
-
-    return res.x
-
-
-def angstroem(ssd, day_length, pot_rad_daily, a, b):
-    """
-    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    a : float
-        First parameter for the Angstroem model (originally 0.25).
-
-    b : float
-        Second parameter for the Angstroem model (originally 0.75).
-    """
-    if isinstance(a, pd.Series):
-        months = ssd.index.month
-        a = a.loc[months].values
-        b = b.loc[months].values
-
-    glob_day = (a + b * ssd / day_length) * pot_rad_daily
-
-    return glob_day
-
-
-def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the a and b parameters for the Angstroem (1924) model using observed daily
-    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-    df = pd.DataFrame(
-        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
-    ).dropna(how='any')
-
-    def angstroem_opt(x, a, b):
-        return angstroem(x[0], x[1], x[2], a, b)
-
-    x = np.array([df.ssd, df.day_length, df.pot])
-    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
-
-    return popt
+################################################################################
+# This file is part of MELODIST - MEteoroLOgical observation time series       #
+# DISaggregation Tool.                                                         #
+#                                                                              #
+# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
+# Thomas Marke                                                                 #
+#                                                                              #
+# MELODIST is free software: you can redistribute it and/or modify it under    #
+# the terms of the GNU General Public License as published by the Free         #
+# Software Foundation, either version 3 of the License, or (at your option)    #
+# any later version.                                                           #
+#                                                                              #
+# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
+# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
+# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
+# details.                                                                     #
+#                                                                              #
+# You should have received a copy of the GNU General Public License along with #
+# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
+################################################################################
+import numpy as np
+import pandas as pd
+import scipy.optimize
+
+import melodist.util
+
+"""
+This routine diaggregates daily values of global radiation data to hourly values
+"""
+
+
+def disaggregate_radiation(
+    data_daily,
+    sun_times=None,
+    pot_rad=None,
+    method='pot_rad',
+    angstr_a=0.25,
+    angstr_b=0.5,
+    bristcamp_a=0.75,
+    bristcamp_c=2.4,
+    mean_course=None,
+):
+    """general function for radiation disaggregation
+
+    Args:
+        daily_data: daily values
+        sun_times: daily dataframe including results of the util.sun_times function
+        pot_rad: hourly dataframe including potential radiation
+        method: keyword specifying the disaggregation method to be used
+        angstr_a: parameter a of the Angstrom model (intercept)
+        angstr_b: parameter b of the Angstrom model (slope)
+        mean_course: monthly values of the mean hourly radiation course
+
+    Returns:
+        Disaggregated hourly values of shortwave radiation.
+    """
+    # check if disaggregation method has a valid value
+    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
+        raise ValueError('Invalid option')
+
+    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
+
+    if method == 'mean_course':
+        assert mean_course is not None
+
+        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
+        pot_rad[:] = (
+            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
+        )
+    else:
+        assert pot_rad is not None
+
+    pot_rad_daily = pot_rad.resample('D').mean()
+
+    if method in ('pot_rad', 'mean_course'):
+        globalrad = data_daily.glob
+    elif method == 'pot_rad_via_ssd':
+        # in this case use the Angstrom model
+        globalrad = pd.Series(index=data_daily.index, data=0.0)
+        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
+        globalrad[dates] = angstroem(
+            data_daily.ssd[dates],
+            sun_times.daylength[dates],
+            pot_rad_daily[dates],
+            angstr_a,
+            angstr_b,
+        )
+    elif method == 'pot_rad_via_bc':
+        # using data from Bristow-Campbell model
+        globalrad = bristow_campbell(
+            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
+        )
+
+    globalrad_equal = globalrad.reindex(
+        pot_rad.index, method='ffill'
+    )  # hourly values (replicate daily mean value for each hour)
+    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
+    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0  # polar night
+    glob_disagg[glob_disagg < 1e-2] = 0.0
+
+    return glob_disagg
+
+
+def potential_radiation(
+    dates,
+    lon,
+    lat,
+    timezone,
+    terrain_slope=0,
+    terrain_slope_azimuth=0,
+    cloud_fraction=0,
+    split=False,
+):
+    """
+    Calculate potential shortwave radiation for a specific location and time.
+
+    This routine calculates global radiation as described in:
+    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
+    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
+
+    Corrections for eccentricity are carried out following:
+    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
+    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
+
+    Parameters
+    ----------
+    dates : DatetimeIndex or array-like
+        The dates for which potential radiation shall be calculated
+    lon : float
+        Longitude (degrees)
+    lat : float
+        Latitude (degrees)
+    timezone : float
+        Time zone
+    terrain_slope : float, default 0
+        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
+    terrain_slope_azimuth : float, default 0
+        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
+    cloud_fraction : float, default 0
+        Cloud fraction between 0 and 1
+    split : boolean, default False
+        If True, return a DataFrame containing direct and diffuse radiation,
+        otherwise return a Series containing total radiation
+    """
+    solar_constant = 1367.0
+    days_per_year = 365.25
+    tropic_of_cancer = np.deg2rad(23.43697)
+    solstice = 173.0
+
+    dates = pd.DatetimeIndex(dates)
+    dates_hour = np.array(dates.hour)
+    dates_minute = np.array(dates.minute)
+    day_of_year = np.array(dates.dayofyear)
+
+    # compute solar decline in rad
+    solar_decline = tropic_of_cancer * np.cos(
+        2.0 * np.pi * (day_of_year - solstice) / days_per_year
+    )
+
+    # compute the sun hour angle in rad
+    standard_meridian = timezone * 15.0
+    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
+
+    # get solar zenith angle
+    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
+        solar_decline
+    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0)
+    solar_zenith_angle = np.arccos(cos_solar_zenith)
+
+    # compute transmissivities for direct and diffus radiation using cloud fraction
+    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
+    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
+
+    # modify solar constant for eccentricity
+    beta = 2.0 * np.pi * (day_of_year / days_per_year)
+    radius_ratio = (
+        1.00011
+        + 0.034221 * np.cos(beta)
+        + 0.00128 * np.sin(beta)
+        + 0.000719 * np.cos(2.0 * beta)
+        + 0.000077 * np.sin(2 * beta)
+    )
+    solar_constant_times_radius_ratio = solar_constant * radius_ratio
+
+    # limit the argument, which may slightly exceed 1 or be undefined with the sun in the zenith
+    sin_zenith = np.sin(solar_zenith_angle).clip(min=1e-9)
+    mu = np.arcsin((np.cos(solar_decline) * np.sin(hour_angle) / sin_zenith).clip(-1, 1))
+    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
+        solar_zenith_angle
+    ) * np.cos(mu - terrain_slope_azimuth)
+
+    # get total shortwave radiation
+    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
+    diffuse_radiation = (
+        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
+    )
+    direct_radiation = direct_radiation.clip(min=0)
+
+    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
+
+    if split:
+        return df
+    else:
+        return df.direct + df.diffuse
+
+
+def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
+    """calculates potential shortwave radiation based on minimum and maximum temperature
+
+    This routine calculates global radiation as described in:
+    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
+    incoming solar radiation and daily maximum and minimum temperature.
+    Agricultural and forest meteorology 31.2 (1984): 159-166.
+
+    Args:
+        daily_data: time series (daily data) including at least minimum and maximum temeprature
+        pot_rad_daily: mean potential daily radiation
+        A: parameter A of the Bristow-Campbell model
+        C: parameter C of the Bristow-Campbell model
+    Returns:
+        series of potential shortwave radiation
+    """
+
+    assert tmin.index.equals(tmax.index)
+
+    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
+    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
+    temp['tmin_nextday'] = temp.tmin
+    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
+
+    temp = temp.loc[tmin.index]
+    pot_rad_daily = pot_rad_daily.loc[tmin.index]
+
+    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
+
+    dT_m_avg = dT.groupby(dT.index.month).mean()
+    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
+    B.index = temp.index
+
+    if isinstance(A, pd.Series):
+        months = temp.index.month
+        A = A.loc[months].values
+        C = C.loc[months].values
+
+    transmissivity = A * (1 - np.exp(-B * dT**C))
+    R0 = transmissivity * pot_rad_daily
+
+    return R0
+
+
+def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
+    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    tmin : Series
+        Observed daily minimum temperature.
+
+    tmax : Series
+        Observed daily maximum temperature.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+
+    def bc_absbias(ac):
+        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
+
+    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
+        how='any'
+    )
+    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+
+    return res.x
+
+
+def angstroem(ssd, day_length, pot_rad_daily, a, b):
+    """
+    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    a : float
+        First parameter for the Angstroem model (originally 0.25).
+
+    b : float
+        Second parameter for the Angstroem model (originally 0.75).
+    """
+    if isinstance(a, pd.Series):
+        months = ssd.index.month
+        a = a.loc[months].values
+        b = b.loc[months].values
+
+    glob_day = (a + b * ssd / day_length) * pot_rad_daily
+
+    return glob_day
+
+
+def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the a and b parameters for the Angstroem (1924) model using observed daily
+    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+    df = pd.DataFrame(
+        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
+    ).dropna(how='any')
+
+    def angstroem_opt(x, a, b):
+        return angstroem(x[0], x[1], x[2], a, b)
+
+    x = np.array([df.ssd, df.day_length, df.pot])
+    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
+
+    return popt
-- 
2.43.0


From 1fb69c5a8a4d4aa215f06a4165aa720acd8b3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:19 +0000
Subject: [PATCH 25/25] fix: no direct radiation on slopes when the sun is
 below the horizon

---
 melodist/radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 6259ff7..2ff7ee6 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -197,7 +197,8 @@ def potential_radiation(
     diffuse_radiation = (
         solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
     )
-    direct_radiation = direct_radiation.clip(min=0)
+    # inclined surfaces receive no direct radiation either when the sun is below the horizon
+    direct_radiation = np.where(cos_solar_zenith > 0, direct_radiation, 0.0).clip(min=0)
 
     df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
 
-- 
2.43.0

