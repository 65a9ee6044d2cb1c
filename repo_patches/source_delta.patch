From b7c8046fb11f375afc9cd8e757e2b94990f0f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:47 +0000
Subject: [PATCH 01/41] fix: build hourly index for daily indices with missing
 days

hourly_index() used Index.to_datetime and pd.datetime, which current pandas
no longer provides. Any daily index with gaps, such as a seasonal subset,
raised AttributeError.
---
 melodist/util/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 7550078..c39a65a 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -29,13 +29,13 @@ def hourly_index(daily_index, fill_gaps=False):
     # remove days that are not in the daily index:
     if not fill_gaps and len(index) > len(daily_index) * 24:
         df = pd.DataFrame(index=index.date, data=dict(hour=index.hour, keep=True))
-        df.index = df.index.to_datetime()
+        df.index = pd.to_datetime(df.index)
         dropdates = list(set(index.date) - set(daily_index.date))
         df.loc[dropdates, 'keep'] = False
         df = df[df.keep]
         index = pd.DatetimeIndex(
             [
-                pd.datetime(y, m, d, h)
+                pd.Timestamp(y, m, d, h)
                 for y, m, d, h in zip(df.index.year, df.index.month, df.index.day, df.hour)
             ]
         )
-- 
2.43.0


From 79d4842e70b8eccb71ee551e158061dcec4192cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:47 +0000
Subject: [PATCH 02/41] fix: build sub-hourly indices for daily indices with
 missing days

sub_level_index() and fmin_index() used pd.datetime, which current pandas no
longer provides. fmin_index() also used the removed frequency alias 'L'.
---
 melodist/precipitation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index fb8295f..0864541 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -727,7 +727,7 @@ def sub_level_index(daily_index, level=9, fill_gaps=False):
         df = df[df.keep]
         sublevel_index = pd.DatetimeIndex(
             [
-                pd.datetime(y, m, d, h, minute, second)
+                pd.Timestamp(y, m, d, h, minute, second)
                 for y, m, d, h, minute, second in zip(
                     df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
                 )
@@ -741,7 +741,7 @@ def fmin_index(daily_index, fill_gaps=False):
     fminindex = pd.date_range(
         start=daily_index.min(),
         end=daily_index.max().replace(hour=23, minute=59, second=59),
-        freq='300000L',
+        freq='5min',
     )
     # remove days that are not in the daily index:
     if not fill_gaps and len(fminindex) > len(daily_index) * 288:
@@ -757,7 +757,7 @@ def fmin_index(daily_index, fill_gaps=False):
         df = df[df.keep]
         fminindex = pd.DatetimeIndex(
             [
-                pd.datetime(y, m, d, h, minute, second)
+                pd.Timestamp(y, m, d, h, minute, second)
                 for y, m, d, h, minute, second in zip(
                     df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
                 )
-- 
2.43.0


From ae3d30790c43c00c1e77d1e15b31be5e42e68915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:47 +0000
Subject: [PATCH 03/41] fix: do not report 5 min precipitation for days that
 are not in the input

Resampling the cascade output filled days missing from the daily index with
zero precipitation. The hourly output leaves such days out.
---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 0864541..dabd094 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -308,7 +308,7 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
         precip_sn = pd.Series(
             index=sub_level_index(precip_daily.index, level=level, fill_gaps=False), data=vdn_out
         )
-        disagg_precip = precip_sn.resample('5min').sum()
+        disagg_precip = precip_sn.resample('5min').sum().reindex(fmin_index(precip_daily.index))
 
     # set missing days to nan again:
     for date in missing_days:
-- 
2.43.0


From 263fa1e5da230c75167cb8e6eabd8e0006bf1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:47 +0000
Subject: [PATCH 04/41] fix: make masterstation precipitation disaggregation
 work again

precip_master_station() used Series.iteritems, which current pandas no longer
provides. The result series is now created as float instead of object.
---
 melodist/precipitation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index dabd094..8bc1d14 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -386,10 +386,10 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         distribution
     """
 
-    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index))
+    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index), dtype=float)
 
     # set some parameters for cosine function
-    for index_d, precip in precip_daily.iteritems():
+    for index_d, precip in precip_daily.items():
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
-- 
2.43.0


From 943325fb25154b7e8a81ca886751a86878950f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:47 +0000
Subject: [PATCH 05/41] fix: make detect_gaps work with current pandas

Timedelta.delta no longer exists.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index c39a65a..211c6f9 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -276,7 +276,7 @@ def detect_gaps(dataframe, timestep, print_all=False, print_max=5, verbose=True)
     for i in range(0, n):
         if i > 0:
             time_diff = dataframe.index[i] - dataframe.index[i - 1]
-            if time_diff.delta / 1e9 != timestep:
+            if time_diff.total_seconds() != timestep:
                 gcount += 1
                 if print_all or (msg_counter <= print_max - 1):
                     if verbose:
-- 
2.43.0


From 588c2aa45d05f9cc0e8394fae7888832e01d529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:47 +0000
Subject: [PATCH 06/41] fix: drop the first row of an incomplete single day

drop_incomplete_days() never looked at row 0 when dropping trailing rows. A
frame starting at the first hour of a day that is never completed kept that
single row.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 211c6f9..318bce4 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -341,7 +341,7 @@ def drop_incomplete_days(dataframe, shift=0):
             dropped += 1
 
     # drop tailing lines if required
-    for i in range(n - 1, 0, -1):
+    for i in range(n - 1, -1, -1):
         if dataframe.index.hour[i] == last and dataframe.index.minute[i] == 0:
             break
         else:
-- 
2.43.0


From 25c9782567991baff7d99bd4a3b45164b3ab6859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:47 +0000
Subject: [PATCH 07/41] fix: make Station.interpolate work with current pandas

prepare_interpolation_data() used Series.append, which no longer exists.
---
 melodist/util/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 318bce4..d0c963e 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -356,16 +356,16 @@ def prepare_interpolation_data(data_daily, column_hours):
     start_date = data_daily.index[0]
     end_date = data_daily.index[-1]
 
-    data = pd.Series()
+    data = []
 
     for column, hour in column_hours.items():
         index = pd.date_range(
             start=start_date.replace(hour=hour), end=end_date.replace(hour=hour), freq='D'
         )
         s = pd.Series(index=index, data=data_daily[column].values)
-        data = data.append(s)
+        data.append(s)
 
-    data = data.sort_index()
+    data = pd.concat(data).sort_index()
     data = data.reindex(hourly_index(data_daily.index))
 
     return data
-- 
2.43.0


From 4d84fc027eee6ced25ab0cf6a28759144ca4521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:47 +0000
Subject: [PATCH 08/41] fix: make polar night temperature disaggregation work
 with current pandas

The mask for transition days contained NaN and Series.append no longer
exists. Every station with a polar night raised an error.
---
 melodist/temperature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index a5ad2b8..708bfe5 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -206,7 +206,7 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars.diff()].astype(
+            transition_days = polars[polars.diff().fillna(False).astype(bool)].astype(
                 int
             )
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
@@ -219,8 +219,8 @@ def disaggregate_temperature(
                 )
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = temp_polars.append(
-                    temp_disagg[melodist.util.hourly_index(add_days)]
+                temp_polars = pd.concat(
+                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
                 ).sort_index()
 
                 for day in polar_to_normal_days:
-- 
2.43.0


From 999987853837e6a7ac47790c9c1dc6e4b083ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 09/41] fix: make read_smet work with current pandas

Deleting the index name is not supported; reset it instead.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0fe8ba3..70d53ae 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -93,7 +93,7 @@ def read_smet(filename, mode):
 
     data = data * multiplier
 
-    del data.index.name
+    data.index.name = None
 
     # rename columns
     if mode == "d":
-- 
2.43.0


From 2d2f7ab74dc4a890e6c5ae619ed0afe45c174a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 10/41] fix: write daily minimum and maximum temperature to the
 right SMET fields

write_smet() stored tmin as TMAX and tmax as TMIN. Reading such a file back
with read_smet() swapped both columns.
---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 70d53ae..41e72c4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -244,8 +244,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
     # daily data
     dict_d = {
         'tmean': 'TA',
-        'tmin': 'TMAX',  # no spec
-        'tmax': 'TMIN',  # no spec
+        'tmin': 'TMIN',  # no spec
+        'tmax': 'TMAX',  # no spec
         'precip': 'PSUM',
         'glob': 'ISWR',  # no spec
         'hum': 'RH',
-- 
2.43.0


From 0b1b836e81b7a7e1b6d7ea9c32a56a79a3370df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 11/41] fix: leave out all-NaN columns when writing SMET files

With check_nan=True columns without any data should not be written. The sum of
an all-NaN column is 0 by default, so they were never detected.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41e72c4..995f357 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -263,7 +263,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
 
     if check_nan:
         # get all columns with data
-        datas_in = data.sum().dropna().to_frame().T
+        datas_in = data.sum(min_count=1).dropna().to_frame().T
         # get colums with no datas
         drop = [data_nan for data_nan in data.columns if data_nan not in datas_in]
         # delete columns
-- 
2.43.0


From d7f0f70329580dd5eac8669cc9332ad4a4a98b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 12/41] fix: keep the last record in read_dwd when skip_last is
 False

Any value other than None skipped the last line.
---
 melodist/data_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 995f357..8c158bb 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -150,9 +150,11 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         }
 
         # ---read data------------------
-        if skip_last is not None:
+        if skip_last:
             num_lines = sum(1 for line in open(filename))
             skip_last = [num_lines - 1]
+        else:
+            skip_last = None
 
         # hourly data must be parsed by custom definition
         if mode == "d":
-- 
2.43.0


From 7ec9cfd0a380b22a33b5cb7a3a6a090bbf54240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 13/41] fix: make read_dwd read hourly files with current
 pandas

The date_parser argument of read_csv no longer exists.
---
 melodist/data_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 8c158bb..1162a75 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -184,9 +184,11 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
                 sep=';',
                 na_values='-999',
                 index_col=' MESS_DATUM',
-                date_parser=date_parser,
                 skiprows=skip_last,
             )
+            data.index = pd.DatetimeIndex(
+                [date_parser(str(d)) for d in data.index], name=data.index.name
+            )
 
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
-- 
2.43.0


From bcfbe1610b85e854804fb3ca0809d1b4af516a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 14/41] fix: make read_single_knmi_file work with current
 pandas

The date_parser and keep_date_col arguments of read_csv and pd.datetime no
longer exist. The timestamps are built from the date and hour columns instead.
---
 melodist/data_io.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 1162a75..3b8f850 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -324,17 +324,15 @@ def read_single_knmi_file(filename):
     """
     hourly_data_obs_raw = pd.read_csv(
         filename,
-        parse_dates=[['YYYYMMDD', 'HH']],
-        date_parser=lambda yyyymmdd, hh: pd.datetime(
-            int(str(yyyymmdd)[0:4]), int(str(yyyymmdd)[4:6]), int(str(yyyymmdd)[6:8]), int(hh) - 1
-        ),
         skiprows=31,
         skipinitialspace=True,
         na_values='',
-        keep_date_col=True,
     )
 
-    hourly_data_obs_raw.index = hourly_data_obs_raw['YYYYMMDD_HH']
+    hourly_data_obs_raw.index = pd.to_datetime(
+        hourly_data_obs_raw['YYYYMMDD'].astype(str), format='%Y%m%d'
+    ) + pd.to_timedelta(hourly_data_obs_raw['HH'] - 1, unit='h')
+    hourly_data_obs_raw.index.name = 'YYYYMMDD_HH'
     hourly_data_obs_raw.index = hourly_data_obs_raw.index + pd.Timedelta(hours=1)
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
-- 
2.43.0


From 4d1df5d83626ed2b195c00d7da15a17c5d254cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 15/41] fix: fill missing values before deriving cascade
 statistics

build_casc() filled the observations with zeros only after taking the subset
of the first season. The first season was evaluated with missing values, a
second call gave different results, and the data of the caller was modified.
---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 8bc1d14..baf6d15 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -660,7 +660,7 @@ def build_casc(ObsData, hourly=True, level=9, months=None, avg_stats=True, perce
     # Parameter estimation for each season
     for cur_months in months:
         vdn = seasonal_subset(ObsData, cur_months)
-        ObsData['precip'] = ObsData['precip'].fillna(0)
+        vdn['precip'] = vdn['precip'].fillna(0)
 
         casc_opt = melodist.cascade.CascadeStatistics()
         casc_opt.percentile = percentile
-- 
2.43.0


From df6fcee2c2ceb4698487b8d2c26e9dbe174d0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 16/41] fix: fit monthly Bristow-Campbell parameters when
 sunshine data exist

The monthly ranges were an iterator that the Angstroem fit had already used
up, so the Bristow-Campbell parameters silently kept their defaults.
---
 melodist/stationstatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 9e426c0..714ed9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -150,7 +150,7 @@ class StationStatistics(object):
             elif how == 'seasonal':
                 month_ranges = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
             elif how == 'monthly':
-                month_ranges = zip(np.arange(12) + 1)
+                month_ranges = list(zip(np.arange(12) + 1))
 
             def myisin(s, v):
                 return pd.Series(s).isin(v).values
-- 
2.43.0


From 669e099e8e118c4d70b5296a67dc0dc764e0f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 17/41] fix: load statistics that do not cover all months from
 JSON

from_json() required mean courses for all twelve months. Statistics derived
from less than a year of data could be saved but not loaded.
---
 melodist/stationstatistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 714ed9b..1cf4b9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -263,8 +263,8 @@ class StationStatistics(object):
                     typ='frame',
                 )
                 .sort_index()
-            )[np.arange(1, 12 + 1)]
-            stats.temp.mean_course = mc.sort_index()[np.arange(1, 12 + 1)]
+            )
+            stats.temp.mean_course = mc.sort_index(axis=1)
 
         if stats.hum.month_hour_precip_mean is not None:
             mhpm = pd.read_json(
@@ -283,6 +283,6 @@ class StationStatistics(object):
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-            stats.glob.mean_course = stats.glob.mean_course[np.arange(1, 12 + 1)]
+            stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)
 
         return stats
-- 
2.43.0


From 536b83c54997dd45ed22dd113a380e4c2a59b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 18/41] fix: set radiation to zero on days without potential
 radiation

During polar nights the daily potential radiation is zero and the division
yielded NaN, even though the daily radiation of such days is explicitly set
to zero for the sunshine duration method.
---
 melodist/radiation.py | 689 +++++++++++++++++++++---------------------
 1 file changed, 345 insertions(+), 344 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 325808c..801d4ea 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -1,344 +1,345 @@
-################################################################################
-# This file is part of MELODIST - MEteoroLOgical observation time series       #
-# DISaggregation Tool.                                                         #
-#                                                                              #
-# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
-# Thomas Marke                                                                 #
-#                                                                              #
-# MELODIST is free software: you can redistribute it and/or modify it under    #
-# the terms of the GNU General Public License as published by the Free         #
-# Software Foundation, either version 3 of the License, or (at your option)    #
-# any later version.                                                           #
-#                                                                              #
-# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
-# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
-# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
-# details.                                                                     #
-#                                                                              #
-# You should have received a copy of the GNU General Public License along with #
-# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
-################################################################################
-import numpy as np
-import pandas as pd
-import scipy.optimize
-
-import melodist.util
-
-"""
-This routine diaggregates daily values of global radiation data to hourly values
-"""
-
-
-def disaggregate_radiation(
-    data_daily,
-    sun_times=None,
-    pot_rad=None,
-    method='pot_rad',
-    angstr_a=0.25,
-    angstr_b=0.5,
-    bristcamp_a=0.75,
-    bristcamp_c=2.4,
-    mean_course=None,
-):
-    """general function for radiation disaggregation
-
-    Args:
-        daily_data: daily values
-        sun_times: daily dataframe including results of the util.sun_times function
-        pot_rad: hourly dataframe including potential radiation
-        method: keyword specifying the disaggregation method to be used
-        angstr_a: parameter a of the Angstrom model (intercept)
-        angstr_b: parameter b of the Angstrom model (slope)
-        mean_course: monthly values of the mean hourly radiation course
-
-    Returns:
-        Disaggregated hourly values of shortwave radiation.
-    """
-    # check if disaggregation method has a valid value
-    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
-        raise ValueError('Invalid option')
-
-    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
-
-    if method == 'mean_course':
-        assert mean_course is not None
-
-        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
-        pot_rad[:] = (
-            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
-        )
-    else:
-        assert pot_rad is not None
-
-    pot_rad_daily = pot_rad.resample('D').mean()
-
-    if method in ('pot_rad', 'mean_course'):
-        globalrad = data_daily.glob
-    elif method == 'pot_rad_via_ssd':
-        # in this case use the Angstrom model
-        globalrad = pd.Series(index=data_daily.index, data=0.0)
-        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
-        globalrad[dates] = angstroem(
-            data_daily.ssd[dates],
-            sun_times.daylength[dates],
-            pot_rad_daily[dates],
-            angstr_a,
-            angstr_b,
-        )
-    elif method == 'pot_rad_via_bc':
-        # using data from Bristow-Campbell model
-        globalrad = bristow_campbell(
-            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
-        )
-
-    globalrad_equal = globalrad.reindex(
-        pot_rad.index, method='ffill'
-    )  # hourly values (replicate daily mean value for each hour)
-    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
-    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
-    glob_disagg[glob_disagg < 1e-2] = 0.0
-
-    return glob_disagg
-
-
-def potential_radiation(
-    dates,
-    lon,
-    lat,
-    timezone,
-    terrain_slope=0,
-    terrain_slope_azimuth=0,
-    cloud_fraction=0,
-    split=False,
-):
-    """
-    Calculate potential shortwave radiation for a specific location and time.
-
-    This routine calculates global radiation as described in:
-    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
-    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
-
-    Corrections for eccentricity are carried out following:
-    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
-    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
-
-    Parameters
-    ----------
-    dates : DatetimeIndex or array-like
-        The dates for which potential radiation shall be calculated
-    lon : float
-        Longitude (degrees)
-    lat : float
-        Latitude (degrees)
-    timezone : float
-        Time zone
-    terrain_slope : float, default 0
-        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
-    terrain_slope_azimuth : float, default 0
-        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
-    cloud_fraction : float, default 0
-        Cloud fraction between 0 and 1
-    split : boolean, default False
-        If True, return a DataFrame containing direct and diffuse radiation,
-        otherwise return a Series containing total radiation
-    """
-    solar_constant = 1367.0
-    days_per_year = 365.25
-    tropic_of_cancer = np.deg2rad(23.43697)
-    solstice = 173.0
-
-    dates = pd.DatetimeIndex(dates)
-    dates_hour = np.array(dates.hour)
-    dates_minute = np.array(dates.minute)
-    day_of_year = np.array(dates.dayofyear)
-
-    # compute solar decline in rad
-    solar_decline = tropic_of_cancer * np.cos(
-        2.0 * np.pi * (day_of_year - solstice) / days_per_year
-    )
-
-    # compute the sun hour angle in rad
-    standard_meridian = timezone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
-    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
-
-    # get solar zenith angle
-    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
-        solar_decline
-    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
-    solar_zenith_angle = np.arccos(cos_solar_zenith)
-
-    # compute transmissivities for direct and diffus radiation using cloud fraction
-    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
-    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
-
-    # modify solar constant for eccentricity
-    beta = 2.0 * np.pi * (day_of_year / days_per_year)
-    radius_ratio = (
-        1.00011
-        + 0.034221 * np.cos(beta)
-        + 0.00128 * np.sin(beta)
-        + 0.000719 * np.cos(2.0 * beta)
-        + 0.000077 * np.sin(2 * beta)
-    )
-    solar_constant_times_radius_ratio = solar_constant * radius_ratio
-
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
-    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
-        solar_zenith_angle
-    ) * np.cos(mu - terrain_slope_azimuth)
-
-    # get total shortwave radiation
-    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-    diffuse_radiation = (
-        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
-    )
-    direct_radiation = direct_radiation.clip(min=0)
-
-    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
-
-    if split:
-        return df
-    else:
-        return df.direct + df.diffuse
-
-
-def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
-    """calculates potential shortwave radiation based on minimum and maximum temperature
-
-    This routine calculates global radiation as described in:
-    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
-    incoming solar radiation and daily maximum and minimum temperature.
-    Agricultural and forest meteorology 31.2 (1984): 159-166.
-
-    Args:
-        daily_data: time series (daily data) including at least minimum and maximum temeprature
-        pot_rad_daily: mean potential daily radiation
-        A: parameter A of the Bristow-Campbell model
-        C: parameter C of the Bristow-Campbell model
-    Returns:
-        series of potential shortwave radiation
-    """
-
-    assert tmin.index.equals(tmax.index)
-
-    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
-    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
-    temp['tmin_nextday'] = temp.tmin
-    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
-
-    temp = temp.loc[tmin.index]
-    pot_rad_daily = pot_rad_daily.loc[tmin.index]
-
-    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
-
-    dT_m_avg = dT.groupby(dT.index.month).mean()
-    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
-    B.index = temp.index
-
-    if isinstance(A, pd.Series):
-        months = temp.index.month
-        A = A.loc[months].values
-        C = C.loc[months].values
-
-    transmissivity = A * (1 - np.exp(-B * dT**C))
-    R0 = transmissivity * pot_rad_daily
-
-    return R0
-
-
-def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
-    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    tmin : Series
-        Observed daily minimum temperature.
-
-    tmax : Series
-        Observed daily maximum temperature.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-
-    def bc_absbias(ac):
-        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
-
-    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
-        how='any'
-    )
-    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
-
-    return res.x
-
-
-def angstroem(ssd, day_length, pot_rad_daily, a, b):
-    """
-    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    a : float
-        First parameter for the Angstroem model (originally 0.25).
-
-    b : float
-        Second parameter for the Angstroem model (originally 0.75).
-    """
-    if isinstance(a, pd.Series):
-        months = ssd.index.month
-        a = a.loc[months].values
-        b = b.loc[months].values
-
-    glob_day = (a + b * ssd / day_length) * pot_rad_daily
-
-    return glob_day
-
-
-def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the a and b parameters for the Angstroem (1924) model using observed daily
-    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-    df = pd.DataFrame(
-        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
-    ).dropna(how='any')
-
-    def angstroem_opt(x, a, b):
-        return angstroem(x[0], x[1], x[2], a, b)
-
-    x = np.array([df.ssd, df.day_length, df.pot])
-    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
-
-    return popt
+################################################################################
+# This file is part of MELODIST - MEteoroLOgical observation time series       #
+# DISaggregation Tool.                                                         #
+#                                                                              #
+# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
+# Thomas Marke                                                                 #
+#                                                                              #
+# MELODIST is free software: you can redistribute it and/or modify it under    #
+# the terms of the GNU General Public License as published by the Free         #
+# Software Foundation, either version 3 of the License, or (at your option)    #
+# any later version.                                                           #
+#                                                                              #
+# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
+# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
+# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
+# details.                                                                     #
+#                                                                              #
+# You should have received a copy of the GNU General Public License along with #
+# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
+################################################################################
+import numpy as np
+import pandas as pd
+import scipy.optimize
+
+import melodist.util
+
+"""
+This routine diaggregates daily values of global radiation data to hourly values
+"""
+
+
+def disaggregate_radiation(
+    data_daily,
+    sun_times=None,
+    pot_rad=None,
+    method='pot_rad',
+    angstr_a=0.25,
+    angstr_b=0.5,
+    bristcamp_a=0.75,
+    bristcamp_c=2.4,
+    mean_course=None,
+):
+    """general function for radiation disaggregation
+
+    Args:
+        daily_data: daily values
+        sun_times: daily dataframe including results of the util.sun_times function
+        pot_rad: hourly dataframe including potential radiation
+        method: keyword specifying the disaggregation method to be used
+        angstr_a: parameter a of the Angstrom model (intercept)
+        angstr_b: parameter b of the Angstrom model (slope)
+        mean_course: monthly values of the mean hourly radiation course
+
+    Returns:
+        Disaggregated hourly values of shortwave radiation.
+    """
+    # check if disaggregation method has a valid value
+    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
+        raise ValueError('Invalid option')
+
+    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
+
+    if method == 'mean_course':
+        assert mean_course is not None
+
+        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
+        pot_rad[:] = (
+            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
+        )
+    else:
+        assert pot_rad is not None
+
+    pot_rad_daily = pot_rad.resample('D').mean()
+
+    if method in ('pot_rad', 'mean_course'):
+        globalrad = data_daily.glob
+    elif method == 'pot_rad_via_ssd':
+        # in this case use the Angstrom model
+        globalrad = pd.Series(index=data_daily.index, data=0.0)
+        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
+        globalrad[dates] = angstroem(
+            data_daily.ssd[dates],
+            sun_times.daylength[dates],
+            pot_rad_daily[dates],
+            angstr_a,
+            angstr_b,
+        )
+    elif method == 'pot_rad_via_bc':
+        # using data from Bristow-Campbell model
+        globalrad = bristow_campbell(
+            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
+        )
+
+    globalrad_equal = globalrad.reindex(
+        pot_rad.index, method='ffill'
+    )  # hourly values (replicate daily mean value for each hour)
+    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
+    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    glob_disagg[glob_disagg < 1e-2] = 0.0
+    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0  # polar nights
+
+    return glob_disagg
+
+
+def potential_radiation(
+    dates,
+    lon,
+    lat,
+    timezone,
+    terrain_slope=0,
+    terrain_slope_azimuth=0,
+    cloud_fraction=0,
+    split=False,
+):
+    """
+    Calculate potential shortwave radiation for a specific location and time.
+
+    This routine calculates global radiation as described in:
+    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
+    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
+
+    Corrections for eccentricity are carried out following:
+    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
+    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
+
+    Parameters
+    ----------
+    dates : DatetimeIndex or array-like
+        The dates for which potential radiation shall be calculated
+    lon : float
+        Longitude (degrees)
+    lat : float
+        Latitude (degrees)
+    timezone : float
+        Time zone
+    terrain_slope : float, default 0
+        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
+    terrain_slope_azimuth : float, default 0
+        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
+    cloud_fraction : float, default 0
+        Cloud fraction between 0 and 1
+    split : boolean, default False
+        If True, return a DataFrame containing direct and diffuse radiation,
+        otherwise return a Series containing total radiation
+    """
+    solar_constant = 1367.0
+    days_per_year = 365.25
+    tropic_of_cancer = np.deg2rad(23.43697)
+    solstice = 173.0
+
+    dates = pd.DatetimeIndex(dates)
+    dates_hour = np.array(dates.hour)
+    dates_minute = np.array(dates.minute)
+    day_of_year = np.array(dates.dayofyear)
+
+    # compute solar decline in rad
+    solar_decline = tropic_of_cancer * np.cos(
+        2.0 * np.pi * (day_of_year - solstice) / days_per_year
+    )
+
+    # compute the sun hour angle in rad
+    standard_meridian = timezone * 15.0
+    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
+
+    # get solar zenith angle
+    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
+        solar_decline
+    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0)
+    solar_zenith_angle = np.arccos(cos_solar_zenith)
+
+    # compute transmissivities for direct and diffus radiation using cloud fraction
+    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
+    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
+
+    # modify solar constant for eccentricity
+    beta = 2.0 * np.pi * (day_of_year / days_per_year)
+    radius_ratio = (
+        1.00011
+        + 0.034221 * np.cos(beta)
+        + 0.00128 * np.sin(beta)
+        + 0.000719 * np.cos(2.0 * beta)
+        + 0.000077 * np.sin(2 * beta)
+    )
+    solar_constant_times_radius_ratio = solar_constant * radius_ratio
+
+    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
+    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
+        solar_zenith_angle
+    ) * np.cos(mu - terrain_slope_azimuth)
+
+    # get total shortwave radiation
+    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
+    diffuse_radiation = (
+        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
+    )
+    direct_radiation = direct_radiation.clip(min=0)
+
+    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
+
+    if split:
+        return df
+    else:
+        return df.direct + df.diffuse
+
+
+def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
+    """calculates potential shortwave radiation based on minimum and maximum temperature
+
+    This routine calculates global radiation as described in:
+    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
+    incoming solar radiation and daily maximum and minimum temperature.
+    Agricultural and forest meteorology 31.2 (1984): 159-166.
+
+    Args:
+        daily_data: time series (daily data) including at least minimum and maximum temeprature
+        pot_rad_daily: mean potential daily radiation
+        A: parameter A of the Bristow-Campbell model
+        C: parameter C of the Bristow-Campbell model
+    Returns:
+        series of potential shortwave radiation
+    """
+
+    assert tmin.index.equals(tmax.index)
+
+    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
+    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
+    temp['tmin_nextday'] = temp.tmin
+    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
+
+    temp = temp.loc[tmin.index]
+    pot_rad_daily = pot_rad_daily.loc[tmin.index]
+
+    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
+
+    dT_m_avg = dT.groupby(dT.index.month).mean()
+    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
+    B.index = temp.index
+
+    if isinstance(A, pd.Series):
+        months = temp.index.month
+        A = A.loc[months].values
+        C = C.loc[months].values
+
+    transmissivity = A * (1 - np.exp(-B * dT**C))
+    R0 = transmissivity * pot_rad_daily
+
+    return R0
+
+
+def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
+    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    tmin : Series
+        Observed daily minimum temperature.
+
+    tmax : Series
+        Observed daily maximum temperature.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+
+    def bc_absbias(ac):
+        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
+
+    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
+        how='any'
+    )
+    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+
+    return res.x
+
+
+def angstroem(ssd, day_length, pot_rad_daily, a, b):
+    """
+    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    a : float
+        First parameter for the Angstroem model (originally 0.25).
+
+    b : float
+        Second parameter for the Angstroem model (originally 0.75).
+    """
+    if isinstance(a, pd.Series):
+        months = ssd.index.month
+        a = a.loc[months].values
+        b = b.loc[months].values
+
+    glob_day = (a + b * ssd / day_length) * pot_rad_daily
+
+    return glob_day
+
+
+def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the a and b parameters for the Angstroem (1924) model using observed daily
+    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+    df = pd.DataFrame(
+        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
+    ).dropna(how='any')
+
+    def angstroem_opt(x, a, b):
+        return angstroem(x[0], x[1], x[2], a, b)
+
+    x = np.array([df.ssd, df.day_length, df.pot])
+    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
+
+    return popt
-- 
2.43.0


From f844868220d8d81bdda8b753178520411b90e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 19/41] fix: always draw a weight in the cascade model

Due to rounding the cumulative weights can end slightly below one. A larger
random number then selected no class, and the weight of an unrelated box was
reused or an UnboundLocalError was raised.
---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index baf6d15..089f7fb 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -260,7 +260,7 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
 
                     # guess w1:
                     for k in range(0, 7):
-                        if rndw <= wxxcum[k, belowabove, vbtype - 1]:
+                        if k == 6 or rndw <= wxxcum[k, belowabove, vbtype - 1]:
                             w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
                             break
 
-- 
2.43.0


From 960693a0622de87d66807e2837daea8c1b27f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 20/41] fix: avoid NaN in potential radiation due to rounding

The argument of arcsin can exceed one by rounding (e.g. at the poles) and the
solar zenith angle can be zero (at the tropics). Both gave NaN radiation.
---
 melodist/radiation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 801d4ea..a292647 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -167,7 +167,7 @@ def potential_radiation(
     cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
         solar_decline
     ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
     solar_zenith_angle = np.arccos(cos_solar_zenith)
 
     # compute transmissivities for direct and diffus radiation using cloud fraction
@@ -185,7 +185,10 @@ def potential_radiation(
     )
     solar_constant_times_radius_ratio = solar_constant * radius_ratio
 
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
+    sin_solar_zenith = np.maximum(np.sin(solar_zenith_angle), np.finfo(float).tiny)
+    mu = np.arcsin(
+        (np.cos(solar_decline) * np.sin(hour_angle) / sin_solar_zenith).clip(min=-1, max=1)
+    )
     cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
         solar_zenith_angle
     ) * np.cos(mu - terrain_slope_azimuth)
-- 
2.43.0


From e10b4f560567084d2cc88bcb2a4a69b6eae707e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 21/41] fix: do not require mean temperature for the
 sine_min_max method

The daily mean is only used by sine_mean.
---
 melodist/temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 708bfe5..3f574c8 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -111,7 +111,8 @@ def disaggregate_temperature(
 
         locdf.min_val_cur = data_daily.tmin
         locdf.max_val_cur = data_daily.tmax
-        locdf.mean_val_cur = data_daily.temp
+        if method == 'sine_mean':
+            locdf.mean_val_cur = data_daily.temp
         locdf.min_val_next = data_daily.tmin.shift(-1, 'D')
         locdf.max_val_next = data_daily.tmax.shift(-1, 'D')
         locdf.loc[locdf.index[-1], 'min_val_next'] = locdf.min_val_cur.iloc[-1]
-- 
2.43.0


From 9cd488020ca0cbfe16b0c46add95b24c4f3834dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 22/41] fix: do not require sun times for min_max_time='fix'

disaggregate_temperature() with default arguments and stations without a time
zone failed because the sun times were needed to detect polar nights.
---
 melodist/temperature.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 3f574c8..1833877 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -176,7 +176,11 @@ def disaggregate_temperature(
                 2 * np.pi / hours_per_day * (locdf.index.hour - locdf.max_loc)
             )
 
-        polars = sun_times.daylength < daylength_thres
+        if sun_times is not None:
+            polars = sun_times.daylength < daylength_thres
+        else:
+            polars = pd.Series(index=data_daily.index, data=False)
+
         if polars.sum() > 0:
             # during polar night, no diurnal variation of temperature is applied
             # instead the daily average calculated using tmin and tmax is applied
-- 
2.43.0


From 532bc1a5dc4c0e9bd074321426aed1b82fce338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:15 +0000
Subject: [PATCH 23/41] fix: recompute sun times when the station location
 changes

The sun times were only computed when daily data was assigned. Changing
longitude, latitude or time zone afterwards kept using the sun times of the
old location for temperature and radiation.
---
 melodist/station.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/melodist/station.py b/melodist/station.py
index 297bb9a..da1f658 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -116,6 +116,7 @@ class Station(object):
     def lon(self, lon):
         self._lon = lon
         self.statistics._lon = lon
+        self._update_sun_times()
 
     @property
     def lat(self):
@@ -128,6 +129,7 @@ class Station(object):
     def lat(self, lat):
         self._lat = lat
         self.statistics._lat = lat
+        self._update_sun_times()
 
     @property
     def timezone(self):
@@ -143,6 +145,7 @@ class Station(object):
     def timezone(self, timezone):
         self._timezone = timezone
         self.statistics._timezone = timezone
+        self._update_sun_times()
 
     @property
     def statistics(self):
@@ -178,6 +181,10 @@ class Station(object):
             self.data_daily.index, self.lon, self.lat, self.timezone
         )
 
+    def _update_sun_times(self):
+        if self.data_daily is not None and None not in (self.lon, self.lat, self.timezone):
+            self.calc_sun_times()
+
     def disaggregate_wind(self, method='equal'):
         """
         Disaggregate wind speed.
-- 
2.43.0


From 156c9ab09ad7fd12ca2acf4263b27b71595cb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:01 +0000
Subject: [PATCH 24/41] fix: avoid infinite wind speed in random disaggregation

np.random.rand draws from [0, 1), and the logarithm of zero gave an infinite
wind speed.
---
 melodist/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/wind.py b/melodist/wind.py
index d56e0f4..2a6df32 100644
--- a/melodist/wind.py
+++ b/melodist/wind.py
@@ -67,7 +67,7 @@ def disaggregate_wind(wind_daily, method='equal', a=None, b=None, t_shift=None):
             np.array([wind_eq.values, wind_eq.index.hour]), a, b, t_shift
         )
     elif method == 'random':
-        wind_disagg = wind_eq * (-np.log(np.random.rand(len(wind_eq)))) ** 0.3
+        wind_disagg = wind_eq * (-np.log(1.0 - np.random.rand(len(wind_eq)))) ** 0.3
 
     return wind_disagg
 
-- 
2.43.0


From 9d664685e02e58e42d4defdb05233d7ddfebcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:01 +0000
Subject: [PATCH 25/41] fix: fill the first hours of a series starting in the
 polar night

The interpolation only worked forward, so the hours before the first anchor
at 06:00 stayed missing although daily data were available.
---
 melodist/temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 1833877..786ec6a 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -241,7 +241,9 @@ def disaggregate_temperature(
                         day.replace(hour=max_loc) + pd.Timedelta(hours=1) : day.replace(hour=23)
                     ] = np.nan
 
-            temp_interp = temp_polars.interpolate(method='linear', limit=23)
+            temp_interp = temp_polars.interpolate(
+                method='linear', limit=23, limit_direction='both'
+            )
             temp_disagg[temp_interp.index] = temp_interp
     elif method == 'mean_course_min_max':
         data_daily_as_hourly = data_daily.reindex(temp_disagg.index, method='ffill', limit=23)
-- 
2.43.0


From f89c74bc5c1fff4db215040d76e9f1003f0b19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:01 +0000
Subject: [PATCH 26/41] fix: keep missing days missing during the polar night

Days without minimum and maximum temperature were filled by interpolating
between the neighbouring days.
---
 melodist/temperature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 786ec6a..7513423 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -244,6 +244,8 @@ def disaggregate_temperature(
             temp_interp = temp_polars.interpolate(
                 method='linear', limit=23, limit_direction='both'
             )
+            missing = locdf.min_val_cur.isnull() | locdf.max_val_cur.isnull()
+            temp_interp[missing[temp_interp.index]] = np.nan
             temp_disagg[temp_interp.index] = temp_interp
     elif method == 'mean_course_min_max':
         data_daily_as_hourly = data_daily.reindex(temp_disagg.index, method='ffill', limit=23)
-- 
2.43.0


From 10814bb5d683ea0e1d85205f2124bcd311d9c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:01 +0000
Subject: [PATCH 27/41] fix: remove negative sunshine durations in KNMI data

KNMI uses -1 for amounts below the resolution, both for precipitation and for
sunshine duration. Only precipitation was corrected.
---
 melodist/data_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 3b8f850..41bab9c 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -350,8 +350,9 @@ def read_single_knmi_file(filename):
         ),
     )
     # remove negative values
-    negative_values = hourly_data_obs['precip'] < 0.0
-    hourly_data_obs.loc[negative_values, 'precip'] = 0.0
+    for column in ('precip', 'ssd'):
+        negative_values = hourly_data_obs[column] < 0.0
+        hourly_data_obs.loc[negative_values, column] = 0.0
     return hourly_data_obs
 
 
-- 
2.43.0


From 93206d190ed1385ab8fdf8d649a2dd9611a36934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:01 +0000
Subject: [PATCH 28/41] fix: return KNMI datasets in chronological order

The files were merged in the arbitrary order returned by the file system.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41bab9c..d613f81 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -383,4 +383,4 @@ def read_knmi_dataset(directory):
             first_call = False
         else:
             ts = pd.concat([ts, current])
-    return ts
+    return ts.sort_index()
-- 
2.43.0


From 818a440063dc3cf9da268e9a8089b3c2a4eedde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:59 +0000
Subject: [PATCH 29/41] fix: no direct radiation on slopes while the sun is
 below the horizon

---
 melodist/radiation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index a292647..685f475 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -199,6 +199,7 @@ def potential_radiation(
         solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
     )
     direct_radiation = direct_radiation.clip(min=0)
+    direct_radiation[cos_solar_zenith == 0] = 0.0  # sun below the horizon (matters for slopes)
 
     df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
 
-- 
2.43.0


From deb1928c64c591a691012365cd0354531b97a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:32 +0000
Subject: [PATCH 30/41] fix: remove the bias a stalled Bristow-Campbell fit
 leaves behind

---
 melodist/radiation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 685f475..dcae434 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -281,8 +281,15 @@ def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
         how='any'
     )
     res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+    a, c = res.x
 
-    return res.x
+    # the model is linear in A, so any bias left by the optimizer can be removed exactly
+    mod = bristow_campbell(df.tmin, df.tmax, df.pot, a, c)
+    mod_sum = mod.sum()
+    if mod_sum > 0:
+        a *= df.obs[mod.notna()].sum() / mod_sum
+
+    return np.array([a, c])
 
 
 def angstroem(ssd, day_length, pot_rad_daily, a, b):
-- 
2.43.0


From fa57ec3d8225dbdcbfdc435664377d72f3d8fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:23 +0000
Subject: [PATCH 31/41] fix: skip days without temperature observations in the
 maximum shift

Grouped idxmax raises for a day with missing values only, so one such
day made the temperature calibration fail. Only available observations
are considered now.
---
 melodist/temperature.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 7513423..7db6e76 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -286,9 +286,10 @@ def get_shift_by_data(temp_hourly, lon, lat, time_zone):
     daily_index = temp_hourly.resample('D').mean().index
     sun_times = melodist.util.get_sun_times(daily_index, lon, lat, time_zone)
 
-    idxmax = temp_hourly.groupby(temp_hourly.index.date).idxmax()
+    temp_valid = temp_hourly.dropna()
+    idxmax = temp_valid.groupby(temp_valid.index.date).idxmax()
     idxmax.index = pd.to_datetime(idxmax.index)
-    max_temp_hour_obs = idxmax.dropna().apply(lambda d: d.hour)
+    max_temp_hour_obs = idxmax.apply(lambda d: d.hour)
     max_temp_hour_pot = sun_times.sunnoon
     max_delta = max_temp_hour_obs - max_temp_hour_pot
     mean_monthly_delta = max_delta.groupby(max_delta.index.month).mean()
-- 
2.43.0


From 50e0b33f6e2a6875e2bb2d201b8cfd950ec842e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:59 +0000
Subject: [PATCH 32/41] fix: keep equal signs in SMET header values

Header lines were split at every equal sign, cutting off the rest of
values such as URLs or formulas.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index d613f81..488ef3c 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -72,7 +72,7 @@ def read_smet(filename, mode):
                 break
 
             if in_header:
-                line_split = line.split('=')
+                line_split = line.split('=', 1)
                 k = line_split[0].strip()
                 v = line_split[1].strip()
                 header[k] = v
-- 
2.43.0


From 2bc5d59703b1fa87792874040fb9b880d8b5dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:01 +0000
Subject: [PATCH 33/41] fix: recognize padded missing codes in DWD files

DWD pads its columns with blanks. The missing code was only recognized
in columns with decimals, an integer column kept -999 as a value.
---
 melodist/data_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 488ef3c..0b09673 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -190,6 +190,9 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
                 [date_parser(str(d)) for d in data.index], name=data.index.name
             )
 
+        # blank padded missing codes in integer columns are not recognized by read_csv
+        data = data.replace(-999, float('nan'))
+
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
 
-- 
2.43.0


From 861d25720d646913d62f9debf2154b8a40e5d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:55 +0000
Subject: [PATCH 34/41] fix: never keep sun times of earlier data or locations

Assigning daily data to a station with a time zone but no coordinates
failed halfway, and clearing part of the location kept the old sun
times. They are dropped now until data and location are complete.
---
 melodist/station.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/melodist/station.py b/melodist/station.py
index da1f658..4a615c3 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -102,8 +102,7 @@ class Station(object):
         df = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
         self._data_disagg = df
 
-        if self.timezone is not None:
-            self.calc_sun_times()
+        self._update_sun_times()
 
     @property
     def lon(self):
@@ -182,6 +181,8 @@ class Station(object):
         )
 
     def _update_sun_times(self):
+        self.sun_times = None
+
         if self.data_daily is not None and None not in (self.lon, self.lat, self.timezone):
             self.calc_sun_times()
 
-- 
2.43.0


From 0cd99f9de95aabc736564da9e0c499cb95dfd999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:08 +0000
Subject: [PATCH 35/41] fix: leave statistics unchanged when a calibration
 fails

The calibration methods stored part of their results before a later
step could fail, leaving a mixture of old and new parameters. Results
are stored together at the end now.
---
 melodist/stationstatistics.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 1cf4b9b..b0e4a94 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -88,10 +88,10 @@ class StationStatistics(object):
         if months is None:
             months = [np.arange(12) + 1]
 
-        self.precip.months = months
-        self.precip.stats = melodist.build_casc(
+        stats = melodist.build_casc(
             self.data, months=months, avg_stats=avg_stats, percentile=percentile
         )
+        self.precip.update(months=months, stats=stats)
 
     def calc_wind_stats(self):
         """
@@ -105,21 +105,20 @@ class StationStatistics(object):
         Calculates statistics in order to derive diurnal patterns of relative humidity.
         """
         a1, a0 = melodist.calculate_dewpoint_regression(self.data, return_stats=False)
-        self.hum.update(a0=a0, a1=a1)
-        self.hum.kr = 12
-
-        self.hum.month_hour_precip_mean = melodist.calculate_month_hour_precip_mean(self.data)
+        month_hour_precip_mean = melodist.calculate_month_hour_precip_mean(self.data)
+        self.hum.update(a0=a0, a1=a1, kr=12, month_hour_precip_mean=month_hour_precip_mean)
 
     def calc_temperature_stats(self):
         """
         Calculates statistics in order to derive diurnal patterns of temperature
         """
-        self.temp.max_delta = melodist.get_shift_by_data(
+        max_delta = melodist.get_shift_by_data(
             self.data.temp, self._lon, self._lat, self._timezone
         )
-        self.temp.mean_course = melodist.util.calculate_mean_daily_course_by_month(
+        mean_course = melodist.util.calculate_mean_daily_course_by_month(
             self.data.temp, normalize=True
         )
+        self.temp.update(max_delta=max_delta, mean_course=mean_course)
 
     def calc_radiation_stats(self, data_daily=None, day_length=None, how='all'):
         """
@@ -136,7 +135,9 @@ class StationStatistics(object):
         """
         assert how in ('all', 'seasonal', 'monthly')
 
-        self.glob.mean_course = melodist.util.calculate_mean_daily_course_by_month(self.data.glob)
+        mean_course = melodist.util.calculate_mean_daily_course_by_month(self.data.glob)
+        angstroem = self.glob.angstroem.copy()
+        bristcamp = self.glob.bristcamp.copy()
 
         if data_daily is not None:
             pot_rad = melodist.potential_radiation(
@@ -168,7 +169,7 @@ class StationStatistics(object):
                     )
 
                     for month in months:
-                        self.glob.angstroem.loc[month] = a, b
+                        angstroem.loc[month] = a, b
 
             if 'tmin' in data_daily and 'tmax' in data_daily:
                 df = pd.DataFrame(
@@ -189,7 +190,9 @@ class StationStatistics(object):
                     )
 
                     for month in months:
-                        self.glob.bristcamp.loc[month] = a, c
+                        bristcamp.loc[month] = a, c
+
+        self.glob.update(mean_course=mean_course, angstroem=angstroem, bristcamp=bristcamp)
 
     def to_json(self, filename=None):
         """
-- 
2.43.0


From 056aeb6c6e444187cfb887c2c759b703a75fe882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:02 +0000
Subject: [PATCH 36/41] fix: keep the daily data when an empty frame is
 assigned

---
 melodist/station.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/melodist/station.py b/melodist/station.py
index 4a615c3..2ba8112 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -95,12 +95,10 @@ class Station(object):
                     df[var] < 200
                 ), 'Implausible temperature values detected - temperatures must be in K'
 
-        self._data_daily = df.copy()
-
         # create data frame for disaggregated data:
         index = melodist.util.hourly_index(df.index)
-        df = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
-        self._data_disagg = df
+        self._data_daily = df.copy()
+        self._data_disagg = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
 
         self._update_sun_times()
 
-- 
2.43.0


From 7efe9c16632dae3c607cc23c1973231511c64244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:54 +0000
Subject: [PATCH 37/41] fix: missing daily precipitation stays missing when the
 master station is dry

---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 089f7fb..9204adb 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -405,7 +405,7 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
                 precip_h_rel = (1 / 24) * precip
 
             else:
-                precip_h_rel = 0
+                precip_h_rel = 0 * precip
 
         # write the disaggregated day to data
         precip_hourly[index] = precip_h_rel
-- 
2.43.0


From 423795589706a60e76ff0fcbbd16797d13cb2c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:27 +0000
Subject: [PATCH 38/41] fix: complete daily data whose index has a frequency of
 several days

A daily index with every second (or fourth, ...) day carries a frequency,
so it was taken as complete and its missing days were not added.
---
 melodist/station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/station.py b/melodist/station.py
index 2ba8112..e72a8b1 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -86,7 +86,7 @@ class Station(object):
         assert df.index.resolution == 'day'
         assert df.index.is_monotonic_increasing
 
-        if df.index.freq is None:  # likely some days are missing
+        if df.index.freqstr != 'D':  # likely some days are missing
             df = df.reindex(pd.date_range(start=df.index[0], end=df.index[-1], freq='D'))
 
         for var in 'tmin', 'tmax', 'tmean':
-- 
2.43.0


From a58f9b1fa8332fe69d89a980c1e826328f4bb612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:34 +0000
Subject: [PATCH 39/41] fix: restore the line endings of radiation.py

An earlier fix converted the whole file by accident.
---
 melodist/radiation.py | 712 +++++++++++++++++++++---------------------
 1 file changed, 356 insertions(+), 356 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index dcae434..e078454 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -1,356 +1,356 @@
-################################################################################
-# This file is part of MELODIST - MEteoroLOgical observation time series       #
-# DISaggregation Tool.                                                         #
-#                                                                              #
-# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
-# Thomas Marke                                                                 #
-#                                                                              #
-# MELODIST is free software: you can redistribute it and/or modify it under    #
-# the terms of the GNU General Public License as published by the Free         #
-# Software Foundation, either version 3 of the License, or (at your option)    #
-# any later version.                                                           #
-#                                                                              #
-# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
-# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
-# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
-# details.                                                                     #
-#                                                                              #
-# You should have received a copy of the GNU General Public License along with #
-# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
-################################################################################
-import numpy as np
-import pandas as pd
-import scipy.optimize
-
-import melodist.util
-
-"""
-This routine diaggregates daily values of global radiation data to hourly values
-"""
-
-
-def disaggregate_radiation(
-    data_daily,
-    sun_times=None,
-    pot_rad=None,
-    method='pot_rad',
-    angstr_a=0.25,
-    angstr_b=0.5,
-    bristcamp_a=0.75,
-    bristcamp_c=2.4,
-    mean_course=None,
-):
-    """general function for radiation disaggregation
-
-    Args:
-        daily_data: daily values
-        sun_times: daily dataframe including results of the util.sun_times function
-        pot_rad: hourly dataframe including potential radiation
-        method: keyword specifying the disaggregation method to be used
-        angstr_a: parameter a of the Angstrom model (intercept)
-        angstr_b: parameter b of the Angstrom model (slope)
-        mean_course: monthly values of the mean hourly radiation course
-
-    Returns:
-        Disaggregated hourly values of shortwave radiation.
-    """
-    # check if disaggregation method has a valid value
-    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
-        raise ValueError('Invalid option')
-
-    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
-
-    if method == 'mean_course':
-        assert mean_course is not None
-
-        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
-        pot_rad[:] = (
-            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
-        )
-    else:
-        assert pot_rad is not None
-
-    pot_rad_daily = pot_rad.resample('D').mean()
-
-    if method in ('pot_rad', 'mean_course'):
-        globalrad = data_daily.glob
-    elif method == 'pot_rad_via_ssd':
-        # in this case use the Angstrom model
-        globalrad = pd.Series(index=data_daily.index, data=0.0)
-        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
-        globalrad[dates] = angstroem(
-            data_daily.ssd[dates],
-            sun_times.daylength[dates],
-            pot_rad_daily[dates],
-            angstr_a,
-            angstr_b,
-        )
-    elif method == 'pot_rad_via_bc':
-        # using data from Bristow-Campbell model
-        globalrad = bristow_campbell(
-            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
-        )
-
-    globalrad_equal = globalrad.reindex(
-        pot_rad.index, method='ffill'
-    )  # hourly values (replicate daily mean value for each hour)
-    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
-    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
-    glob_disagg[glob_disagg < 1e-2] = 0.0
-    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0  # polar nights
-
-    return glob_disagg
-
-
-def potential_radiation(
-    dates,
-    lon,
-    lat,
-    timezone,
-    terrain_slope=0,
-    terrain_slope_azimuth=0,
-    cloud_fraction=0,
-    split=False,
-):
-    """
-    Calculate potential shortwave radiation for a specific location and time.
-
-    This routine calculates global radiation as described in:
-    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
-    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
-
-    Corrections for eccentricity are carried out following:
-    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
-    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
-
-    Parameters
-    ----------
-    dates : DatetimeIndex or array-like
-        The dates for which potential radiation shall be calculated
-    lon : float
-        Longitude (degrees)
-    lat : float
-        Latitude (degrees)
-    timezone : float
-        Time zone
-    terrain_slope : float, default 0
-        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
-    terrain_slope_azimuth : float, default 0
-        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
-    cloud_fraction : float, default 0
-        Cloud fraction between 0 and 1
-    split : boolean, default False
-        If True, return a DataFrame containing direct and diffuse radiation,
-        otherwise return a Series containing total radiation
-    """
-    solar_constant = 1367.0
-    days_per_year = 365.25
-    tropic_of_cancer = np.deg2rad(23.43697)
-    solstice = 173.0
-
-    dates = pd.DatetimeIndex(dates)
-    dates_hour = np.array(dates.hour)
-    dates_minute = np.array(dates.minute)
-    day_of_year = np.array(dates.dayofyear)
-
-    # compute solar decline in rad
-    solar_decline = tropic_of_cancer * np.cos(
-        2.0 * np.pi * (day_of_year - solstice) / days_per_year
-    )
-
-    # compute the sun hour angle in rad
-    standard_meridian = timezone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
-    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
-
-    # get solar zenith angle
-    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
-        solar_decline
-    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
-    solar_zenith_angle = np.arccos(cos_solar_zenith)
-
-    # compute transmissivities for direct and diffus radiation using cloud fraction
-    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
-    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
-
-    # modify solar constant for eccentricity
-    beta = 2.0 * np.pi * (day_of_year / days_per_year)
-    radius_ratio = (
-        1.00011
-        + 0.034221 * np.cos(beta)
-        + 0.00128 * np.sin(beta)
-        + 0.000719 * np.cos(2.0 * beta)
-        + 0.000077 * np.sin(2 * beta)
-    )
-    solar_constant_times_radius_ratio = solar_constant * radius_ratio
-
-    sin_solar_zenith = np.maximum(np.sin(solar_zenith_angle), np.finfo(float).tiny)
-    mu = np.arcsin(
-        (np.cos(solar_decline) * np.sin(hour_angle) / sin_solar_zenith).clip(min=-1, max=1)
-    )
-    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
-        solar_zenith_angle
-    ) * np.cos(mu - terrain_slope_azimuth)
-
-    # get total shortwave radiation
-    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-    diffuse_radiation = (
-        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
-    )
-    direct_radiation = direct_radiation.clip(min=0)
-    direct_radiation[cos_solar_zenith == 0] = 0.0  # sun below the horizon (matters for slopes)
-
-    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
-
-    if split:
-        return df
-    else:
-        return df.direct + df.diffuse
-
-
-def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
-    """calculates potential shortwave radiation based on minimum and maximum temperature
-
-    This routine calculates global radiation as described in:
-    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
-    incoming solar radiation and daily maximum and minimum temperature.
-    Agricultural and forest meteorology 31.2 (1984): 159-166.
-
-    Args:
-        daily_data: time series (daily data) including at least minimum and maximum temeprature
-        pot_rad_daily: mean potential daily radiation
-        A: parameter A of the Bristow-Campbell model
-        C: parameter C of the Bristow-Campbell model
-    Returns:
-        series of potential shortwave radiation
-    """
-
-    assert tmin.index.equals(tmax.index)
-
-    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
-    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
-    temp['tmin_nextday'] = temp.tmin
-    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
-
-    temp = temp.loc[tmin.index]
-    pot_rad_daily = pot_rad_daily.loc[tmin.index]
-
-    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
-
-    dT_m_avg = dT.groupby(dT.index.month).mean()
-    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
-    B.index = temp.index
-
-    if isinstance(A, pd.Series):
-        months = temp.index.month
-        A = A.loc[months].values
-        C = C.loc[months].values
-
-    transmissivity = A * (1 - np.exp(-B * dT**C))
-    R0 = transmissivity * pot_rad_daily
-
-    return R0
-
-
-def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
-    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    tmin : Series
-        Observed daily minimum temperature.
-
-    tmax : Series
-        Observed daily maximum temperature.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-
-    def bc_absbias(ac):
-        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
-
-    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
-        how='any'
-    )
-    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
-    a, c = res.x
-
-    # the model is linear in A, so any bias left by the optimizer can be removed exactly
-    mod = bristow_campbell(df.tmin, df.tmax, df.pot, a, c)
-    mod_sum = mod.sum()
-    if mod_sum > 0:
-        a *= df.obs[mod.notna()].sum() / mod_sum
-
-    return np.array([a, c])
-
-
-def angstroem(ssd, day_length, pot_rad_daily, a, b):
-    """
-    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    a : float
-        First parameter for the Angstroem model (originally 0.25).
-
-    b : float
-        Second parameter for the Angstroem model (originally 0.75).
-    """
-    if isinstance(a, pd.Series):
-        months = ssd.index.month
-        a = a.loc[months].values
-        b = b.loc[months].values
-
-    glob_day = (a + b * ssd / day_length) * pot_rad_daily
-
-    return glob_day
-
-
-def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the a and b parameters for the Angstroem (1924) model using observed daily
-    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-    df = pd.DataFrame(
-        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
-    ).dropna(how='any')
-
-    def angstroem_opt(x, a, b):
-        return angstroem(x[0], x[1], x[2], a, b)
-
-    x = np.array([df.ssd, df.day_length, df.pot])
-    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
-
-    return popt
+################################################################################
+# This file is part of MELODIST - MEteoroLOgical observation time series       #
+# DISaggregation Tool.                                                         #
+#                                                                              #
+# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
+# Thomas Marke                                                                 #
+#                                                                              #
+# MELODIST is free software: you can redistribute it and/or modify it under    #
+# the terms of the GNU General Public License as published by the Free         #
+# Software Foundation, either version 3 of the License, or (at your option)    #
+# any later version.                                                           #
+#                                                                              #
+# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
+# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
+# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
+# details.                                                                     #
+#                                                                              #
+# You should have received a copy of the GNU General Public License along with #
+# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
+################################################################################
+import numpy as np
+import pandas as pd
+import scipy.optimize
+
+import melodist.util
+
+"""
+This routine diaggregates daily values of global radiation data to hourly values
+"""
+
+
+def disaggregate_radiation(
+    data_daily,
+    sun_times=None,
+    pot_rad=None,
+    method='pot_rad',
+    angstr_a=0.25,
+    angstr_b=0.5,
+    bristcamp_a=0.75,
+    bristcamp_c=2.4,
+    mean_course=None,
+):
+    """general function for radiation disaggregation
+
+    Args:
+        daily_data: daily values
+        sun_times: daily dataframe including results of the util.sun_times function
+        pot_rad: hourly dataframe including potential radiation
+        method: keyword specifying the disaggregation method to be used
+        angstr_a: parameter a of the Angstrom model (intercept)
+        angstr_b: parameter b of the Angstrom model (slope)
+        mean_course: monthly values of the mean hourly radiation course
+
+    Returns:
+        Disaggregated hourly values of shortwave radiation.
+    """
+    # check if disaggregation method has a valid value
+    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
+        raise ValueError('Invalid option')
+
+    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
+
+    if method == 'mean_course':
+        assert mean_course is not None
+
+        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
+        pot_rad[:] = (
+            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
+        )
+    else:
+        assert pot_rad is not None
+
+    pot_rad_daily = pot_rad.resample('D').mean()
+
+    if method in ('pot_rad', 'mean_course'):
+        globalrad = data_daily.glob
+    elif method == 'pot_rad_via_ssd':
+        # in this case use the Angstrom model
+        globalrad = pd.Series(index=data_daily.index, data=0.0)
+        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
+        globalrad[dates] = angstroem(
+            data_daily.ssd[dates],
+            sun_times.daylength[dates],
+            pot_rad_daily[dates],
+            angstr_a,
+            angstr_b,
+        )
+    elif method == 'pot_rad_via_bc':
+        # using data from Bristow-Campbell model
+        globalrad = bristow_campbell(
+            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
+        )
+
+    globalrad_equal = globalrad.reindex(
+        pot_rad.index, method='ffill'
+    )  # hourly values (replicate daily mean value for each hour)
+    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
+    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    glob_disagg[glob_disagg < 1e-2] = 0.0
+    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0  # polar nights
+
+    return glob_disagg
+
+
+def potential_radiation(
+    dates,
+    lon,
+    lat,
+    timezone,
+    terrain_slope=0,
+    terrain_slope_azimuth=0,
+    cloud_fraction=0,
+    split=False,
+):
+    """
+    Calculate potential shortwave radiation for a specific location and time.
+
+    This routine calculates global radiation as described in:
+    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
+    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
+
+    Corrections for eccentricity are carried out following:
+    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
+    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
+
+    Parameters
+    ----------
+    dates : DatetimeIndex or array-like
+        The dates for which potential radiation shall be calculated
+    lon : float
+        Longitude (degrees)
+    lat : float
+        Latitude (degrees)
+    timezone : float
+        Time zone
+    terrain_slope : float, default 0
+        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
+    terrain_slope_azimuth : float, default 0
+        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
+    cloud_fraction : float, default 0
+        Cloud fraction between 0 and 1
+    split : boolean, default False
+        If True, return a DataFrame containing direct and diffuse radiation,
+        otherwise return a Series containing total radiation
+    """
+    solar_constant = 1367.0
+    days_per_year = 365.25
+    tropic_of_cancer = np.deg2rad(23.43697)
+    solstice = 173.0
+
+    dates = pd.DatetimeIndex(dates)
+    dates_hour = np.array(dates.hour)
+    dates_minute = np.array(dates.minute)
+    day_of_year = np.array(dates.dayofyear)
+
+    # compute solar decline in rad
+    solar_decline = tropic_of_cancer * np.cos(
+        2.0 * np.pi * (day_of_year - solstice) / days_per_year
+    )
+
+    # compute the sun hour angle in rad
+    standard_meridian = timezone * 15.0
+    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
+
+    # get solar zenith angle
+    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
+        solar_decline
+    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
+    solar_zenith_angle = np.arccos(cos_solar_zenith)
+
+    # compute transmissivities for direct and diffus radiation using cloud fraction
+    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
+    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
+
+    # modify solar constant for eccentricity
+    beta = 2.0 * np.pi * (day_of_year / days_per_year)
+    radius_ratio = (
+        1.00011
+        + 0.034221 * np.cos(beta)
+        + 0.00128 * np.sin(beta)
+        + 0.000719 * np.cos(2.0 * beta)
+        + 0.000077 * np.sin(2 * beta)
+    )
+    solar_constant_times_radius_ratio = solar_constant * radius_ratio
+
+    sin_solar_zenith = np.maximum(np.sin(solar_zenith_angle), np.finfo(float).tiny)
+    mu = np.arcsin(
+        (np.cos(solar_decline) * np.sin(hour_angle) / sin_solar_zenith).clip(min=-1, max=1)
+    )
+    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
+        solar_zenith_angle
+    ) * np.cos(mu - terrain_slope_azimuth)
+
+    # get total shortwave radiation
+    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
+    diffuse_radiation = (
+        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
+    )
+    direct_radiation = direct_radiation.clip(min=0)
+    direct_radiation[cos_solar_zenith == 0] = 0.0  # sun below the horizon (matters for slopes)
+
+    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
+
+    if split:
+        return df
+    else:
+        return df.direct + df.diffuse
+
+
+def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
+    """calculates potential shortwave radiation based on minimum and maximum temperature
+
+    This routine calculates global radiation as described in:
+    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
+    incoming solar radiation and daily maximum and minimum temperature.
+    Agricultural and forest meteorology 31.2 (1984): 159-166.
+
+    Args:
+        daily_data: time series (daily data) including at least minimum and maximum temeprature
+        pot_rad_daily: mean potential daily radiation
+        A: parameter A of the Bristow-Campbell model
+        C: parameter C of the Bristow-Campbell model
+    Returns:
+        series of potential shortwave radiation
+    """
+
+    assert tmin.index.equals(tmax.index)
+
+    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
+    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
+    temp['tmin_nextday'] = temp.tmin
+    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
+
+    temp = temp.loc[tmin.index]
+    pot_rad_daily = pot_rad_daily.loc[tmin.index]
+
+    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
+
+    dT_m_avg = dT.groupby(dT.index.month).mean()
+    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
+    B.index = temp.index
+
+    if isinstance(A, pd.Series):
+        months = temp.index.month
+        A = A.loc[months].values
+        C = C.loc[months].values
+
+    transmissivity = A * (1 - np.exp(-B * dT**C))
+    R0 = transmissivity * pot_rad_daily
+
+    return R0
+
+
+def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
+    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    tmin : Series
+        Observed daily minimum temperature.
+
+    tmax : Series
+        Observed daily maximum temperature.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+
+    def bc_absbias(ac):
+        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
+
+    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
+        how='any'
+    )
+    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+    a, c = res.x
+
+    # the model is linear in A, so any bias left by the optimizer can be removed exactly
+    mod = bristow_campbell(df.tmin, df.tmax, df.pot, a, c)
+    mod_sum = mod.sum()
+    if mod_sum > 0:
+        a *= df.obs[mod.notna()].sum() / mod_sum
+
+    return np.array([a, c])
+
+
+def angstroem(ssd, day_length, pot_rad_daily, a, b):
+    """
+    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    a : float
+        First parameter for the Angstroem model (originally 0.25).
+
+    b : float
+        Second parameter for the Angstroem model (originally 0.75).
+    """
+    if isinstance(a, pd.Series):
+        months = ssd.index.month
+        a = a.loc[months].values
+        b = b.loc[months].values
+
+    glob_day = (a + b * ssd / day_length) * pot_rad_daily
+
+    return glob_day
+
+
+def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the a and b parameters for the Angstroem (1924) model using observed daily
+    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+    df = pd.DataFrame(
+        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
+    ).dropna(how='any')
+
+    def angstroem_opt(x, a, b):
+        return angstroem(x[0], x[1], x[2], a, b)
+
+    x = np.array([df.ssd, df.day_length, df.pot])
+    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
+
+    return popt
-- 
2.43.0


From 5895b1841f9aab10f9ca526c05aad9012c9a3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:02:53 +0000
Subject: [PATCH 40/41] fix: leave polar nights out of the fit of the Angstroem
 parameters

The ratio of sunshine duration to day length is 0/0 on such days, and one of them was enough for the fit to return its
start values.  Months without any daylight keep the original parameters.
---
 melodist/radiation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index e078454..41d195d 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -346,6 +346,10 @@ def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
     df = pd.DataFrame(
         data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
     ).dropna(how='any')
+    df = df[df.day_length > 0]  # account for polar nights
+
+    if len(df) < 2:  # nothing to fit (e.g. a month of polar nights): keep the original values
+        return np.array([0.25, 0.75])
 
     def angstroem_opt(x, a, b):
         return angstroem(x[0], x[1], x[2], a, b)
-- 
2.43.0


From 3b75236f0883ae316f668543cc1f1315945f2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:03:33 +0000
Subject: [PATCH 41/41] fix: months without data do not stop the calibration of
 the Bristow-Campbell parameters

Seasonal or monthly calibration of a series that does not cover the whole year ended with an IndexError.
---
 melodist/radiation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 41d195d..cae8b96 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -280,6 +280,10 @@ def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
     df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
         how='any'
     )
+
+    if df.empty:  # nothing to fit: keep the original values
+        return np.array([0.75, 2.4])
+
     res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
     a, c = res.x
 
-- 
2.43.0

