From e7faf2cddac1471a35d9d88391477f1a72afa8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 001/100] fix: keep the configured aggregation window separate
 from the sampling time of a frame

---
 pyforecaster/formatter.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a2048fb..b8971ce 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -736,10 +736,11 @@ class Transformer:
             # infer sampling time
             dt = self.dt if self.dt is not None else x[name].index.to_series().diff().median()
 
-            if self.agg_freq is None:
-                self.agg_freq = dt
-            elif isinstance(self.agg_freq, (np.int8, np.int32, np.int64, int)):
-                self.agg_freq *= dt
+            agg_freq = self.agg_freq
+            if agg_freq is None:
+                agg_freq = dt
+            elif isinstance(agg_freq, (np.int8, np.int32, np.int64, int)):
+                agg_freq = agg_freq * dt
 
             # agg_steps = number of steps on which aggregation stats are retrieved
             # agg_time = time range on which aggregation stats are retrieved
@@ -748,7 +749,7 @@ class Transformer:
                 agg_steps = np.max(self.agg_bins)-np.min(self.agg_bins)
                 spacing_time = dt
             else:
-                agg_steps = int(pd.Timedelta(self.agg_freq) / dt)
+                agg_steps = int(pd.Timedelta(agg_freq) / dt)
                 spacing_time = dt * agg_steps if self.relative_lags else dt
 
             trans_names = [name]
@@ -756,11 +757,11 @@ class Transformer:
             if self.functions:
                 function_names = [get_fun_name(s) for s in self.functions]
                 if self.agg_bins is None:
-                    hr_agg_freq = self.agg_freq if isinstance(self.agg_freq, str) else hr_timedelta(self.agg_freq.to_timedelta64())
+                    hr_agg_freq = agg_freq if isinstance(agg_freq, str) else hr_timedelta(agg_freq.to_timedelta64())
                     trans_names = ['{}_{}_{}'.format(name, hr_agg_freq, p) for p in function_names]
 
                     if not simulate:
-                        d = d.rolling(self.agg_freq, min_periods=agg_steps).agg(self.functions)
+                        d = d.rolling(agg_freq, min_periods=agg_steps).agg(self.functions)
                         d.columns = trans_names
                 else:
                     if not simulate:
@@ -816,7 +817,7 @@ class Transformer:
 
                 metadata_n = pd.DataFrame(lags_and_fun, columns=['lag', 'function'], index=trans_names)
 
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
 
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
@@ -825,7 +826,7 @@ class Transformer:
                 lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
                 lags_and_fun =product(function_names, lags_expanded)
                 metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
                 if self.nested:
                     metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-- 
2.43.0


From 00cf0d778dbcec67395a7851357ba7e8dcfe391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 002/100] fix: align binned statistics with the time index
 before shifting them

---
 pyforecaster/formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index b8971ce..538dc4a 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -786,6 +786,8 @@ class Transformer:
                                 d_rolled = d.rolling(window=indexer, min_periods=agg_steps).apply(reducer.reduce)
                                 partial_res.append(np.vstack(reducer.stats).tolist())
                             d = pd.DataFrame(np.hstack(partial_res), index=d_rolled.index[~d_rolled.isna()], columns=trans_names)
+                            # restore rows without a complete window, so that shifts count sampling steps
+                            d = d.reindex(d_rolled.index)
                             d = d.shift(np.max(self.original_agg_bins)-1)
                     else:
                         if self.nested:
-- 
2.43.0


From 9a85fee7ba9076978168e3b38972d00b823979dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 003/100] fix: count every sample of an aggregation window that
 is no multiple of the sampling time

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 538dc4a..044b0f4 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -749,7 +749,7 @@ class Transformer:
                 agg_steps = np.max(self.agg_bins)-np.min(self.agg_bins)
                 spacing_time = dt
             else:
-                agg_steps = int(pd.Timedelta(agg_freq) / dt)
+                agg_steps = int(np.ceil(pd.Timedelta(agg_freq) / dt))
                 spacing_time = dt * agg_steps if self.relative_lags else dt
 
             trans_names = [name]
-- 
2.43.0


From 79a959a4a082886b4242b661255f657df2db702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 004/100] fix: binned statistics of a signal without any
 complete window are missing, not an error

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 044b0f4..9ba0f4a 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -784,7 +784,7 @@ class Transformer:
                                 reducer = Reducer(bins=self.agg_bins, agg_fun=agg_fun)
                                 indexer = pd.api.indexers.FixedForwardWindowIndexer(window_size=agg_steps)
                                 d_rolled = d.rolling(window=indexer, min_periods=agg_steps).apply(reducer.reduce)
-                                partial_res.append(np.vstack(reducer.stats).tolist())
+                                partial_res.append(np.array(reducer.stats).reshape(-1, len(self.agg_bins) - 1))
                             d = pd.DataFrame(np.hstack(partial_res), index=d_rolled.index[~d_rolled.isna()], columns=trans_names)
                             # restore rows without a complete window, so that shifts count sampling steps
                             d = d.reindex(d_rolled.index)
-- 
2.43.0


From 150d7f156c0e17aa054e0c5dcc735285df396113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 005/100] fix: list the metadata of binned features in the
 order of their columns

---
 pyforecaster/formatter.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 9ba0f4a..a932d3c 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -825,21 +825,16 @@ class Transformer:
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
                 metadata_n['end_time'] = - spacing_time * lags_aux + dt
             else:
-                lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
-                lags_and_fun =product(function_names, lags_expanded)
-                metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
+                # same order as trans_names: lags first, then bins and functions
+                lags = [0] if self.lags is None else self.lags
+                bins = range(len(self.agg_bins) - 1)
+                bins_and_fun = list(product(bins, function_names)) if self.nested else [(i, f) for f, i in product(function_names, bins)]
+                cols = [(lag, l, i, f) for (lag, l), (i, f) in product(list(zip(lags, lag_steps)), bins_and_fun)]
+                metadata_n = pd.DataFrame([(f, lag) for lag, _, _, f in cols], columns=['function', 'lag'], index=trans_names)
                 metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
-                if self.nested:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                else:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for name, i, l in
-                                                product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for name, i, l in
-                                              product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
+                metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for _, l, i, _ in cols]
+                metadata_n['end_time'] = [-dt * (self.original_agg_bins[i + 1] + l) + dt for _, l, i, _ in cols]
             metadata_n['name'] = name
             metadata_n['relative_lags'] = self.relative_lags
 
-- 
2.43.0


From e925260745fafa1d099a10a0f919bb6c3f6bf2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 006/100] fix: look the target step up over all target
 transformers when pruning

---
 pyforecaster/formatter.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a932d3c..9516a1e 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -493,14 +493,9 @@ class Formatter:
     def prune_dataset_at_stepahead(self, df, target_col_num, metadata_features, method='periodic', period='24h', tol_period='1h', keep_last_n_lags=0, keep_last_seconds=0):
 
         # retrieve referring_time of the given sa for the target from target_transformers
-        target_start_times = []
-        target_end_times = []
-        for tt in self.target_transformers:
-            target_start_times.append(tt.metadata.iloc[target_col_num, :]['start_time'])
-            target_end_times.append(tt.metadata.iloc[target_col_num, :]['end_time'])
-
-        target_start_time = pd.to_timedelta(target_start_times[0])
-        target_end_time = pd.to_timedelta(target_end_times[0])
+        target_metadata = pd.concat([tt.metadata for tt in self.target_transformers])
+        target_start_time = pd.to_timedelta(target_metadata.iloc[target_col_num, :]['start_time'])
+        target_end_time = pd.to_timedelta(target_metadata.iloc[target_col_num, :]['end_time'])
 
         metadata = pd.concat([t.metadata for t in self.transformers])
         if method == 'periodic':
-- 
2.43.0


From cdef7bb7fb921a35854594ab5df115594ac14338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 007/100] fix: simulate the transforms when the metadata of a
 target transformer is missing

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 9516a1e..32ad9eb 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -574,7 +574,7 @@ class Formatter:
     def get_time_lims(self, include_target=False, extremes=True):
 
         transformers = self.transformers + self.target_transformers if include_target else self.transformers
-        if any([t.metadata is None for t in self.transformers]):
+        if any([t.metadata is None for t in transformers]):
             self._simulate_transform()
 
         min_start_times = pd.DataFrame(pd.concat(
-- 
2.43.0


From 22d94369bb432795e3f9159cf201d8b4aa6b4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 008/100] fix: normalise only the columns of the normalised
 targets, without touching the caller's frame

---
 pyforecaster/formatter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 32ad9eb..afe6e10 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -311,6 +311,7 @@ class Formatter:
         # normalize the target if any
         if return_target:
             if isinstance(y.columns, pd.MultiIndex):
+                y = y.copy()
                 # we are normalizing a Multiindex Dataframe containing quantiles, indicated in level=1
                 for tau in y.columns.get_level_values(1).unique():
                     y_tau = y.loc[:, (slice(None), tau)]
@@ -324,7 +325,7 @@ class Formatter:
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.transformers:
                 # find df_n columns to normalize
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     x.loc[:, c] = self.normalizing_wrapper(normalizing_fun, x, c)
 
@@ -337,7 +338,7 @@ class Formatter:
 
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.target_transformers:
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     df_n.loc[:, c] = self.normalizing_wrapper(normalizing_fun, df_n, c)
         y = df_n[[c for c in y.columns]]
-- 
2.43.0


From 05871c2b9a6df878b0737064c946caf58b2c8e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 009/100] fix: calendar features of a frame without rows or
 columns

---
 pyforecaster/formatter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index afe6e10..a31360a 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -56,7 +56,7 @@ class Formatter:
         self.denormalizing_fun = None
 
     def add_time_features(self, x):
-        tz = x.index[0].tz
+        tz = x.index.tz
         self.logger.debug('Adding time features. Time zone for the df: {}'.format(tz))
         if self.timezone is None:
             if tz is None:
@@ -64,18 +64,14 @@ class Formatter:
                 col_names = ['hour', 'dayofweek', 'minuteofday']
                 self.timezone = False
             else:
-                if x.shape[1] == 0:
-                    utc_offset = pd.DataFrame(index=x.index, columns=[0]).apply(lambda x: x.name.utcoffset().
-                                                                                total_seconds() / 3600, axis=1)
-                else:
-                    utc_offset = x.apply(lambda x: x.name.utcoffset().total_seconds()/3600, axis=1)
+                utc_offset = np.array([t.utcoffset().total_seconds() / 3600 for t in x.index])
                 time_features = [x.index.hour, x.index.dayofweek, x.index.hour * 60 + x.index.minute, utc_offset]
                 col_names = ['hour', 'dayofweek', 'minuteofday', 'utc_offset']
                 self.timezone = True
         else:
             if self.timezone:
                 if tz is not None:
-                    utc_offset = x.apply(lambda x: x.name.utcoffset().total_seconds()/3600, axis=1)
+                    utc_offset = np.array([t.utcoffset().total_seconds() / 3600 for t in x.index])
                 else:
                     self.logger.warning('I am setting UTC offset feature to zero since the timeindex you passed was '
                                         'not time zone localized')
@@ -92,6 +88,9 @@ class Formatter:
 
     def add_holidays(self, x, state_code='CH', **kwargs):
         self.logger.debug('Adding holidays')
+        if len(x) == 0:
+            x['holidays'] = 0
+            return x
         holidays = holidays_api.country_holidays(country=state_code, years=x.index.year.unique(), **kwargs)
         bridges, long_weekends = spot_holiday_bridges(start=x.index[0]-pd.Timedelta('2D'), end=x.index[-1]+pd.Timedelta('2D'), holidays=pd.DatetimeIndex(holidays.keys()))
         bridges = np.array([b.date() for b in bridges])
-- 
2.43.0


From 4b62d68e70656bc2a0e4438bbc90a96342369cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 010/100] fix: accept the lag of a target normaliser as a
 number or list

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a31360a..bf52ca2 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -145,7 +145,7 @@ class Formatter:
         assert len(target) == 1, 'only one target can be normalized per time. If you want to normalize two targets call this method twice'
         if lags is not None:
             assert len(lags) == 1, 'only one lag is admissible for the normalization.'
-            assert np.all(lags>0), 'you cannot normalize with future values, all lags should be positive'
+            assert np.all(np.array(lags) > 0), 'you cannot normalize with future values, all lags should be positive'
 
         transformer = Transformer(target, functions=function, agg_freq=agg_freq, lags=lags, logger=self.logger,
                                   relative_lags=relative_lags, agg_bins=agg_bins, dt=self.dt, name=name)
-- 
2.43.0


From a098da3ec1e532a406da48b37847162c9b657121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 011/100] fix: consider the neighbouring year's holidays for
 long weekends at the end of a year

---
 pyforecaster/formatter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index bf52ca2..2cd4ec5 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -91,8 +91,11 @@ class Formatter:
         if len(x) == 0:
             x['holidays'] = 0
             return x
-        holidays = holidays_api.country_holidays(country=state_code, years=x.index.year.unique(), **kwargs)
-        bridges, long_weekends = spot_holiday_bridges(start=x.index[0]-pd.Timedelta('2D'), end=x.index[-1]+pd.Timedelta('2D'), holidays=pd.DatetimeIndex(holidays.keys()))
+        start, end = x.index[0] - pd.Timedelta('2D'), x.index[-1] + pd.Timedelta('2D')
+        # holidays of the neighbouring year decide on bridges and long weekends at the end of the year
+        years = range((start - pd.Timedelta('1D')).year, (end + pd.Timedelta('1D')).year + 1)
+        holidays = holidays_api.country_holidays(country=state_code, years=years, **kwargs)
+        bridges, long_weekends = spot_holiday_bridges(start=start, end=end, holidays=pd.DatetimeIndex(holidays.keys()))
         bridges = np.array([b.date() for b in bridges])
         long_weekends = np.array([b.date() for b in long_weekends])
 
-- 
2.43.0


From e9289c182b034a7cedda9eac8035d5117fa67a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 012/100] fix: error quantiles of forecasters which are not
 conditional to the hour

---
 pyforecaster/forecaster.py                      | 17 +++++++++++------
 .../forecasting_models/gradientboosters.py      |  4 +---
 .../forecasting_models/neural_models/INN.py     |  4 +---
 .../forecasting_models/neural_models/base_nn.py |  3 +--
 .../random_fourier_features.py                  |  8 ++------
 5 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index b579883..c564dab 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -208,6 +208,15 @@ class ScenarioGenerator(BaseEstimator):
             return err_distr
         return np.quantile(errs, self.q_vect, axis=0).T
 
+    def _add_err_distr(self, preds, index):
+        """Add the estimated error quantiles, (n_steps, n_quantiles), to preds, (n_obs, n_steps, n_quantiles)"""
+        if self.conditional_to_hour:
+            for h in np.unique(index.hour):
+                preds[index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+        else:
+            preds += np.expand_dims(self.err_distr, 0)
+        return preds
+
     def fit(self, x:pd.DataFrame, y:pd.DataFrame):
         y = self.anti_transform(x, y)
         self.target_cols = y.columns
@@ -350,9 +359,7 @@ class LinearForecaster(ScenarioGenerator):
 
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
 class LGBForecaster(ScenarioGenerator):
@@ -408,8 +415,6 @@ class LGBForecaster(ScenarioGenerator):
 
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 434bedb..dd5a254 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -167,9 +167,7 @@ class LGBMHybrid(ScenarioGenerator):
 
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
 class LGBEnergyAware(LGBMHybrid):
diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 375d32d..0c3a3b5 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -225,9 +225,7 @@ class CausalInvertibleNN(NN):
 
     def predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
 def invert(params, y, model):
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 33089ee..6b5b35e 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -501,8 +501,7 @@ class NN(ScenarioGenerator):
                 preds[:, :, i] += sigma_hat * np.sqrt(2) * erfinv(2*q-1)
         else:
             preds = np.expand_dims(self.predict(inputs), -1) * np.ones((1, 1, len(self.q_vect)))
-            for h in np.unique(inputs.index.hour):
-                preds[inputs.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds = self._add_err_distr(preds, inputs.index)
         return preds
 
     def get_normalized_inputs(self, inputs, target=None):
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 487da6d..b3d6085 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -353,9 +353,7 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
+        return self._add_err_distr(preds, x.index)
 
 
 class AdditiveRFFRegression(ScenarioGenerator):
@@ -394,6 +392,4 @@ class AdditiveRFFRegression(ScenarioGenerator):
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-        for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
-        return preds
\ No newline at end of file
+        return self._add_err_distr(preds, x.index)
\ No newline at end of file
-- 
2.43.0


From 8c1c19a7d9d893e47c2cb1d233809aa4bbe0c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 013/100] fix: LGBForecaster kept stale models on refit and
 ignored set_params

---
 pyforecaster/forecaster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index c564dab..e9e74d9 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -382,7 +382,10 @@ class LGBForecaster(ScenarioGenerator):
         self.colsample_bynode = colsample_bynode
         self.n_jobs = n_jobs
         self.n_jobs_predict = n_jobs_predict
-        self.lgb_pars = {"device_type": self.device_type,
+
+    @property
+    def lgb_pars(self):
+        return {"device_type": self.device_type,
                     "objective": self.objective,
                     "max_depth": self.max_depth,
                     "n_estimators": self.n_estimators,
@@ -397,6 +400,7 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
             m = train(self.lgb_pars, lgb_data, num_boost_round=self.lgb_pars['n_estimators'])
-- 
2.43.0


From e39933c165e96b40f776d4ebbe757d975f3ca1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 014/100] fix: LGBMHybrid and LGBEnergyAware kept stale models
 on refit, LGBEnergyAware trained on the validation data

---
 pyforecaster/forecasting_models/gradientboosters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index dd5a254..4b70996 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -82,6 +82,7 @@ class LGBMHybrid(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=cpu_count()-2) as executor:
                 self.models = list(executor.map(partial(self.fit_single, x=x, y=y, lgb_pars=lgb_pars), np.arange(self.n_single)))
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                                 logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -175,6 +176,7 @@ class LGBEnergyAware(LGBMHybrid):
         lgb_pars = self.get_lgb_pars()
         x, y, x_val, y_val = self.train_val_split(x, y)
         e_unbalance = pd.DataFrame()
+        self.models = []
         for i in tqdm(range(self.n_single)):
             x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                             logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -193,7 +195,8 @@ class LGBEnergyAware(LGBMHybrid):
             preds_i_no_ctrl = self.models[i].predict(x_i_no_ctrl)
             e_unbalance = pd.concat([e_unbalance, pd.Series(preds_i_no_ctrl-preds_i, index=x_i.index)], axis=1)
 
-        super().fit(x_val, y_val)
+        # only the post-fit stage: LGBMHybrid.fit would train other models on the validation data
+        ScenarioGenerator.fit(self, x_val, y_val)
         return self
 
     def predict(self, x, **kwargs):
-- 
2.43.0


From 990f23f3639b20b28c11897deb32c1524a053abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 015/100] fix: QRF kept stale models on refit and ignored
 set_params

---
 .../forecasting_models/randomforests.py       | 42 ++++++++++---------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 59b57d5..94dcf47 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -68,26 +68,29 @@ class QRF(ScenarioGenerator):
         self.ccp_alpha = ccp_alpha
         self.parallel = parallel
         self.max_parallel_workers = max_parallel_workers
+        self._default_quantiles = q_vect if q_vect is not None else 'mean'
 
-        self.qrf_pars = {
-            "n_estimators":n_estimators,
-            "bootstrap": bootstrap,
-            "oob_score": oob_score,
-            "n_jobs": n_jobs,
-            "random_state": random_state,
-            "verbose": verbose,
-            "warm_start": warm_start,
-            "max_samples": max_samples,
-            "min_samples_split": min_samples_split,
-            "min_samples_leaf": min_samples_leaf,
-            "max_samples_leaf": max_samples_leaf,
-            "min_weight_fraction_leaf": min_weight_fraction_leaf,
-            "max_features": max_features ,
-            "max_leaf_nodes": max_leaf_nodes,
-            "min_impurity_decrease": min_impurity_decrease,
-            "default_quantiles":q_vect if q_vect is not None else 'mean',
-            "criterion":criterion,
-             "ccp_alpha":ccp_alpha
+    @property
+    def qrf_pars(self):
+        return {
+            "n_estimators": self.n_estimators,
+            "bootstrap": self.bootstrap,
+            "oob_score": self.oob_score,
+            "n_jobs": self.n_jobs,
+            "random_state": self.random_state,
+            "verbose": self.verbose,
+            "warm_start": self.warm_start,
+            "max_samples": self.max_samples,
+            "min_samples_split": self.min_samples_split,
+            "min_samples_leaf": self.min_samples_leaf,
+            "max_samples_leaf": self.max_samples_leaf,
+            "min_weight_fraction_leaf": self.min_weight_fraction_leaf,
+            "max_features": self.max_features,
+            "max_leaf_nodes": self.max_leaf_nodes,
+            "min_impurity_decrease": self.min_impurity_decrease,
+            "default_quantiles": self._default_quantiles,
+            "criterion": self.criterion,
+            "ccp_alpha": self.ccp_alpha
         }
 
     def _fit(self, i, x, y, sample_weight=None):
@@ -105,6 +108,7 @@ class QRF(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 model = self._fit(i, x, y, sample_weight=sample_weight)
                 self.models.append(model)
-- 
2.43.0


From dc2cd34688a22e525f4247160fc8d829430eb207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 016/100] fix: QRF quantiles scrambled as array, failures with
 one multi-step target

---
 .../forecasting_models/randomforests.py       | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 94dcf47..8ff94bf 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -145,14 +145,12 @@ class QRF(ScenarioGenerator):
         preds = np.dstack(preds)
         if 'quantiles' in kwargs:
             if str(kwargs['quantiles']) == 'mean':
-                preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+                preds = pd.DataFrame(preds[:, 0, :], index=x.index, columns=self.target_cols)
             else:
-                if len(preds.shape) == 2:
-                    preds = np.expand_dims(preds, 0)
                 preds = np.swapaxes(preds, 1, 2)
                 preds = self.quantiles_to_df(preds, index=x.index, q_vect=kwargs['quantiles'])
         else:
-            preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+            preds = pd.DataFrame(preds[:, 0, :], index=x.index, columns=self.target_cols)
         y_hat = self.anti_transform(x, preds)
         return y_hat
 
@@ -168,13 +166,8 @@ class QRF(ScenarioGenerator):
 
     def predict_multi_step(self, x, quantiles='mean'):
         preds = self.multi_step_model.predict(x, quantiles)
-        if len(preds.shape) == 1:
-            preds = np.expand_dims(preds, 1)
-        if len(preds.shape) == 2:
-            preds = np.expand_dims(preds, 1)
-        else:
-            preds = np.swapaxes(preds, 1, 2)
-        return preds
+        # (n_obs, n_quantiles, n_multistep), also with a single quantile or a single step
+        return np.swapaxes(preds.reshape(len(x), self.n_multistep, -1), 1, 2)
 
     @staticmethod
     def dataset_at_stepahead(df, target_col_num, metadata_features, formatter, logger, method='periodic', keep_last_n_lags=1, period="24h",
@@ -191,8 +184,8 @@ class QRF(ScenarioGenerator):
     def quantiles_to_numpy(q_hat: pd.DataFrame):
         n_taus = len(q_hat.columns.get_level_values(1).unique())
         q_hat = q_hat.values
-        q_hat = np.reshape(q_hat, (q_hat.shape[0], n_taus, -1))
-        q_hat = np.swapaxes(q_hat, 1, 2)
+        # columns are ordered by target, then by quantile, see quantiles_to_df
+        q_hat = np.reshape(q_hat, (q_hat.shape[0], -1, n_taus))
         return q_hat
 
     def predict_quantiles(self, x, dataframe=True, **kwargs):
-- 
2.43.0


From f5fe8ab0f02061df68e5b1b2b4689585daa36aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 017/100] fix: categorical encoding modified the caller's frame
 and was never learned again

---
 pyforecaster/forecaster.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index e9e74d9..1ddea23 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -25,12 +25,16 @@ def _validate_max_scengen_rows(value: Optional[Union[int, np.integer]]):
 
 def encode_categorical(func):
     def wrapper(self, x: pd.DataFrame, *args, **kwargs):
-        # Initialize a protected dictionary to store encoders if it doesn't exist yet
-        if not hasattr(self, '_le'):
+        # Initialize a protected dictionary to store encoders if it doesn't exist yet. Encoders are learned again
+        # each time the model is fitted
+        if not hasattr(self, '_le') or func.__name__ == 'fit':
             self._le = {}
 
         # Check if x contains columns that are not numbers and encode them
-        for column in x.select_dtypes(include=['object', 'category']).columns:
+        categorical_columns = x.select_dtypes(include=['object', 'category']).columns
+        if len(categorical_columns) > 0:
+            x = x.copy()  # do not change the caller's dataframe
+        for column in categorical_columns:
             if column not in self._le:
                 # Create and fit a new encoder for the column if it's the first encounter
                 le = LabelEncoder()
-- 
2.43.0


From f89252f9595d46e514b2ff8a93acc37aaaafc2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 018/100] fix: copula samples with a single scenario

---
 pyforecaster/copula.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 08d08de..6c1e7fa 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -90,12 +90,8 @@ class HourlyGaussianCopula(GaussianCopula):
                 continue
             else:
                 mvr_samples = mvr.rvs((np.sum(hour_filt), n_scen), random_state=random_state)
-                # if sum(hour_filt) == 1, mvr_sample has lower dimensionality
-                if np.sum(hour_filt) == 1:
-                    mvr_samples = np.expand_dims(mvr_samples, 0)
-                # if we're predicting only one target, mvr.rvs has lower dimensionality
-                if len(mvr_samples.shape) == 2:
-                    mvr_samples = np.expand_dims(mvr_samples, -1)
+                # mvr.rvs drops the dimensions of size one (one row, one scenario, one target)
+                mvr_samples = np.reshape(mvr_samples, (np.sum(hour_filt), n_scen, self.dim))
                 mvr_samples = np.swapaxes(mvr_samples, 1, 2)
                 copula_samples[hour_filt, :, :] = norm.cdf(mvr_samples)
         return copula_samples
-- 
2.43.0


From 946add665e20dbfa4e8050d5c72ea83c7a0b255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 019/100] fix: scenarios of a forecaster with an additional
 node

---
 pyforecaster/forecaster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 1ddea23..6fed5ac 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -282,12 +282,14 @@ class ScenarioGenerator(BaseEstimator):
                 pmf[i, j, :] = np.histogram(quantiles[i, j, :], bins=discrete_prob_space)[0]/len(self.q_vect)
         return pmf
 
-    def predict_scenarios(self, x, n_scen=None, random_state=None, **predict_q_kwargs):
+    def predict_scenarios(self, x, n_scen=None, random_state=None, init_obs=None, **predict_q_kwargs):
         n_scen = self.n_scen_fit if n_scen is None else n_scen
         # retrieve quantiles from child class
         quantiles = self.predict_quantiles(x, dataframe=False, **predict_q_kwargs)
-        scenarios = self.scengen.predict_scenarios(quantiles, n_scen=n_scen, x=x, random_state=random_state)
+        scenarios = self.scengen.predict_scenarios(quantiles, n_scen=n_scen, x=x, random_state=random_state,
+                                                   init_obs=init_obs)
         q_from_scens = np.rollaxis(np.quantile(scenarios, self.q_vect, axis=-1), 0, 3)
+        q_from_scens = q_from_scens[:, -quantiles.shape[1]:, :]  # skip the additional node, if any
         mean_abs_dev = np.abs(q_from_scens - quantiles).mean(axis=0).mean(axis=0)
         self.logger.info('mean abs deviations of re-estimated quantiles from scenarios: {}'.format(mean_abs_dev))
         return scenarios
-- 
2.43.0


From 2123b3117f079582c2e1911104302873d0787ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 020/100] fix: scenario trees refused nodes given as list,
 changed the caller's nodes and misaligned them when n_scen was n_steps+1

---
 pyforecaster/scenred.py       |  1 +
 pyforecaster/tree_builders.py | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 3e9f4b3..807837f 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -65,6 +65,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
 
     if nodes is None:
         nodes = default_nodes
+    nodes = np.array(nodes)  # a copy: do not change the caller's nodes
 
     # pars kwargs
     pars = {'nodes': nodes,
diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index ffe059b..e4e1781 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -65,16 +65,16 @@ class ScenarioTree:
         return tree, tree_scens, tree_vals
 
     def gen_init_tree(self, scens, nodes_at_step=None):
+        if nodes_at_step is None:
+            nodes_at_step = self.nodes_at_step
         if nodes_at_step is None:
             geometric_steps = np.array([2**t for t in range(int(np.log(scens.shape[1])/np.log(2)))][2:])
             geometric_progression = np.floor(np.logspace(-1, np.log(len(geometric_steps))/np.log(10), scens.shape[0])).astype(int)
             reverse_geom_progression = np.max(geometric_progression) - geometric_progression[::-1]
-            geometric_nodes = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
-
-            nodes_at_step = self.nodes_at_step if self.nodes_at_step is not None else \
-                geometric_nodes
+            nodes_at_step = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
+        nodes_at_step = np.array(nodes_at_step)  # a copy: do not change the caller's nodes
 
-        if len(nodes_at_step) == scens.shape[1]-1:
+        if len(nodes_at_step) == scens.shape[0]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
             self.logger.info('seems like you have one step more in your scenarios than what specified in nodes_at_step'
                              'I assume you are passing an additional step to consider initial variance, I am adding an '
-- 
2.43.0


From 441542480a4d03207dcecf7fe5c8415c8149921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 021/100] fix: nodes of quantile trees carried the values of
 the previous step

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index e4e1781..8c0731f 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -48,7 +48,7 @@ class ScenarioTree:
                     children = list(tree.successors(j))
                     qs = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 1))
                     bins.update({c: [qs[i], qs[i+1]] for i, c in enumerate(children)})
-                    vals_j = np.quantile(scens[t, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
+                    vals_j = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
                     for c, v in zip(children, vals_j):
                         vals[c] = v
                         filters[c] = filters[j][(scens[t+1, filters[j]] > bins[c][0] - 1e-6) &
-- 
2.43.0


From 960ee40c54c2fdb9eead7c0901c78795f6330743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 022/100] fix: nodes_at_step given to the trees of an offline
 forecaster was silently ignored

---
 pyforecaster/forecaster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 6fed5ac..c03b4c4 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -317,7 +317,8 @@ class ScenarioGenerator(BaseEstimator):
         else:
             predictions = self.predict(x, **predict_q_kwargs)
 
-            trees = self.scengen.predict_trees(predictions=predictions, n_scen=n_scen, x=x, init_obs=init_obs,
+            trees = self.scengen.predict_trees(predictions=predictions, n_scen=n_scen, x=x,
+                                         nodes_at_step=nodes_at_step, init_obs=init_obs,
                                          random_state=random_state)
 
         # if we predicted just one step just return a nx object, not a list
-- 
2.43.0


From dad4405eef9c95548613fd9ee778b2d613f24534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 023/100] fix: Holt-Winters error quantiles were all missing

---
 pyforecaster/forecasting_models/holtwinters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 56508e3..827398f 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -197,9 +197,11 @@ class HoltWinters(ScenarioGenerator):
 
         resid = hw_target - y_hat_hw
         self.coeffs_output = np.linalg.pinv(x[:-self.n_sa,:].T @ x[:-self.n_sa,:]) @ (x[:-self.n_sa,:].T @ resid)
-        self.y_hat_tr = pd.DataFrame(y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output,
-                                        index=x_pd.index[:-self.n_sa])
-        resid = hw_target - self.y_hat_tr
+        # the covariates' correction is applied only if there are covariates, as in predict
+        if len(x_pd.columns) > 1:
+            y_hat_hw = y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output
+        self.y_hat_tr = pd.DataFrame(y_hat_hw, index=x_pd.index[:-self.n_sa])
+        resid = hw_target - y_hat_hw
 
         self.y_tr = pd.DataFrame(hw_target, index=x_pd.index[:-self.n_sa])
 
-- 
2.43.0


From a18522682d803a14de6f19ca7a80d3d0bae53980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 024/100] fix: HoltWintersMulti lost the error quantiles and
 labels of its steps and the seasonal constraints

---
 pyforecaster/forecasting_models/holtwinters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 827398f..4c59d6f 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -414,6 +414,7 @@ class HoltWintersMulti(ScenarioGenerator):
         self.gammas_2 = np.ones(len(self.models_periods)) * 0.01 if gammas_2 is None else gammas_2
         self.optimize_hyperpars = optimize_hyperpars
         self.target_name = target_name
+        self.constraints = constraints
         self.models = None
         self.reinit_pars()
 
@@ -422,7 +423,7 @@ class HoltWintersMulti(ScenarioGenerator):
         for i, n in enumerate(self.models_periods):
             models.append(HoltWinters(periods=self.periods, q_vect=self.q_vect,
                              n_sa=n, target_name=self.target_name, optimization_budget=self.optimization_budget,
-                                      targets_names=self.targets_names, verbose=False, optimize_hyperpars=self.optimize_submodels_hyperpars,
+                                      constraints=self.constraints, targets_names=self.targets_names, verbose=False, optimize_hyperpars=self.optimize_submodels_hyperpars,
                                       alpha=self.alphas[i], gamma_1=self.gammas_1[i], gamma_2=self.gammas_2[i]))
 
         self.models = models
@@ -439,12 +440,13 @@ class HoltWintersMulti(ScenarioGenerator):
             m.fit(x_pd, y_pd)
             selection = np.arange(k, m.err_distr.shape[0])
             err_distr[selection, :] = m.err_distr[selection, :]
-            k = m.err_distr.shape[1]
+            k = m.err_distr.shape[0]
 
         # reinit HW
         # concat past inputs and last row of target
         self.reinit(x_pd[self.target_name].values)
         self.err_distr = err_distr
+        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
 
         return self
 
-- 
2.43.0


From 5077ccf6fb308e37dadac316a95c9962c3fdb7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 025/100] fix: a missing observation made all later
 Holt-Winters forecasts undefined

---
 pyforecaster/forecasting_models/holtwinters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 4c59d6f..89a0f2b 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -353,9 +353,11 @@ def run(horizon, period, alpha, beta, gamma, s1mp, s2mp, am1, bm1, Y, y_tot, y_h
     s2mp_shift = 0*s2mp
     for j in np.arange(len(Y)):
         if np.isnan(Y[j]):
-            a = alpha * (y_tot[j,0] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
-            s1 = gamma[0] * (y_tot[j,0] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-            s2 = gamma[1] * (y_tot[j,0] - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
+            # missing observation: use its own one step ahead forecast
+            y_j = am1 + bm1 + s1mp[0] + s2mp[0]
+            a = alpha * (y_j - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
+            s1 = gamma[0] * (y_j - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
+            s2 = gamma[1] * (y_j - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
         else:
             a = alpha * (Y[j] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
             s1 = gamma[0] * (Y[j] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-- 
2.43.0


From 8d7fcff35ca697dbe50a68135d7d5e35a9b6844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 026/100] fix: adaptive forecasters could not be copied or
 pickled

---
 .../fast_adaptive_models.py                   | 25 +++----------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index c1ce966..28ed341 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -243,7 +243,7 @@ class Fourier_es(StatefulForecaster):
 
         # only store states if we are fitting
         if fit:
-            self.__setstate__({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
@@ -253,12 +253,6 @@ class Fourier_es(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
-
 
 
 #@njit
@@ -399,7 +393,7 @@ class FK(StatefulForecaster):
                                                                last_1sa_preds, eps, x, P, self.F, Q, self.H, R,
                                                                self.n_harmonics_int, w)
         if fit:
-            self.__setstate__({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         preds = preds + preds_updated
         self.coeffs_t_history = coeffs_t_history.T
@@ -412,12 +406,6 @@ class FK(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
-
 
 class FK_multi(StatefulForecaster):
     """
@@ -570,8 +558,7 @@ class FK_multi(StatefulForecaster):
 
         if fit:
             # if we were fitting, store states. Do nothing if we're predicting
-            # self.states = [self.models[j].__getstate__() for j in range(self.n_predictors)]
-            self.__setstate__({'Q':Q, 'R':R, 'P':P, 'x':x})
+            self.states.update({'Q':Q, 'R':R, 'P':P, 'x':x})
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
         return np.vstack(preds[1:])
@@ -579,9 +566,3 @@ class FK_multi(StatefulForecaster):
     def _predict_quantiles(self, x, **kwargs):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
-
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
\ No newline at end of file
-- 
2.43.0


From 7ba94682a38be130a977410f63122fad80559ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 027/100] fix: predictions of the Fourier-Kalman forecaster
 changed its fitted history

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 28ed341..b31fcf5 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -383,10 +383,7 @@ class FK(StatefulForecaster):
         else:
             preds = [[y[start_from]+eps]]
 
-        if len(self.coeffs_t_history)>0:
-            coeffs_t_history = np.vstack([self.coeffs_t_history, np.zeros((len(y) - start_from, self.n_harmonics_int * 2 + 1))])
-        else:
-            coeffs_t_history = np.zeros((len(y) - start_from, self.n_harmonics_int * 2 + 1))
+        coeffs_t_history = np.zeros((len(y), self.n_harmonics_int * 2 + 1))
         (preds_updated, last_1sa_preds, eps,
          x, P, Q, R, coeffs_t_history, w) = update_predictions(coeffs_t_history.T, start_from, y, self.P_future,
                                                                self.periodicity, self.n_sa, self.m, self.omega,
@@ -395,8 +392,9 @@ class FK(StatefulForecaster):
         if fit:
             self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
+            self.coeffs_t_history = coeffs_t_history.T
+
         preds = preds + preds_updated
-        self.coeffs_t_history = coeffs_t_history.T
 
         if return_coeffs:
             return np.vstack(preds[1:]), coeffs_t_history.T
-- 
2.43.0


From ee367695709ea2044aa9c6854c79faed7598dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 028/100] fix: forecasts of the adaptive forecasters were out
 of phase unless trained on a multiple of m rows

---
 .../fast_adaptive_models.py                   | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index b31fcf5..fd411c5 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -137,7 +137,8 @@ class StatefulForecaster(ScenarioGenerator):
         x = x_pd.values
 
         # exclude the last n_sa, we need them to create the target
-        preds = self.run(x, y_present, start_from=0, fit=True)[:-self.n_sa]
+        self.y_hat_tr = self.run(x, y_present, start_from=0, fit=True)
+        preds = self.y_hat_tr[:-self.n_sa]
         #preds = self.predict(x_pd)[:-self.n_sa]
 
         # hankelize the target
@@ -182,7 +183,7 @@ class Fourier_es(StatefulForecaster):
         self.P_future = None
 
         self.hyperpar_lims = {'alpha': [0, 1], 'omega': [0, 1], 'n_harmonics': [1, m//2]}
-        self.states = {'x': None, 'w':np.zeros(m), 'eps':0, 'last_1sa_preds':0}
+        self.states = {'x': None, 'w':np.zeros(m), 'eps':0, 'last_1sa_preds':0, 'phase':0}
         self.reinit_pars()
 
 
@@ -191,6 +192,7 @@ class Fourier_es(StatefulForecaster):
         self.states['w'] = np.zeros(self.m)
         self.states['eps'] = 0
         self.states['last_1sa_preds'] = 0
+        self.states['phase'] = 0
         self.store_basis()
 
     def store_basis(self):
@@ -211,6 +213,7 @@ class Fourier_es(StatefulForecaster):
         eps = states['eps']
         last_1sa_preds = states['last_1sa_preds']
         w_init = states['w']
+        phase = states['phase']  # the coefficients refer to the phase at which the last fit ended
 
         if x is None:
             x = np.zeros(2 * self.n_harmonics_int + 1)
@@ -223,9 +226,10 @@ class Fourier_es(StatefulForecaster):
         last_1sa_preds = np.copy(last_1sa_preds)
 
         for i in range(start_from, len(y)):
-            P_past = self.P_future[i % self.m:(i % self.m + self.m), :]
+            i_p = (i + phase) % self.m
+            P_past = self.P_future[i_p:(i_p + self.m), :]
             # this is copy-pasting the Fourier smoothing in the last periodicity
-            P_f = self.P_future[i % self.m + self.m - self.periodicity:i % self.m + self.m -self.periodicity + self.n_sa, :]
+            P_f = self.P_future[i_p + self.m - self.periodicity:i_p + self.m -self.periodicity + self.n_sa, :]
             start = np.maximum(0, i-self.m+1)
 
             w = self.generate_recent_history(y, w_init, start, i)
@@ -243,7 +247,8 @@ class Fourier_es(StatefulForecaster):
 
         # only store states if we are fitting
         if fit:
-            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds,
+                                'phase': (len(y) + phase) % self.m})
 
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
@@ -256,12 +261,13 @@ class Fourier_es(StatefulForecaster):
 
 
 #@njit
-def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m, omega, last_1sa_preds, eps, x, P, F, Q, H, R, n_harmonics, w_init):
+def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m, omega, last_1sa_preds, eps, x, P, F, Q, H, R, n_harmonics, w_init, phase):
     preds = []
     for i in range(start_from, len(y)):
-        P_past = Ps_future[i % m:(i % m + m), :]
+        i_p = (i + phase) % m
+        P_past = Ps_future[i_p:(i_p + m), :]
         # this is copy-pasting the Fourier smoothing in the last periodicity
-        P_f = Ps_future[i % m + m  -period: i % m + m -period+h, :]
+        P_f = Ps_future[i_p + m  -period: i_p + m -period+h, :]
 
         start = max(0, i - m + 1)
 
@@ -336,7 +342,8 @@ class FK(StatefulForecaster):
 
         self.hyperpar_lims = {'alpha': [0, 1], 'omega': [0, 1], 'n_harmonics': [1, self.m // 2], 'r': [0.001, 0.8],
                               'q': [0.001, 0.8]}
-        self.states = {'x': None, 'P': None, 'R': None, 'Q': None, 'w':np.zeros(m), 'eps':None, 'last_1sa_preds':0}
+        self.states = {'x': None, 'P': None, 'R': None, 'Q': None, 'w':np.zeros(m), 'eps':None, 'last_1sa_preds':0,
+                       'phase':0}
         self.reinit_pars()
 
 
@@ -353,6 +360,7 @@ class FK(StatefulForecaster):
         self.states['w'] = np.zeros(self.m)
         self.states['eps'] = None
         self.states['last_1sa_preds'] = 0
+        self.states['phase'] = 0
         self.P_future = None
         self.store_basis()
 
@@ -376,6 +384,7 @@ class FK(StatefulForecaster):
         w = states['w']
         eps = states['eps']
         last_1sa_preds = states['last_1sa_preds']
+        phase = states['phase']  # the coefficients refer to the phase at which the last fit ended
 
         if eps is None:
             eps = 0
@@ -388,9 +397,10 @@ class FK(StatefulForecaster):
          x, P, Q, R, coeffs_t_history, w) = update_predictions(coeffs_t_history.T, start_from, y, self.P_future,
                                                                self.periodicity, self.n_sa, self.m, self.omega,
                                                                last_1sa_preds, eps, x, P, self.F, Q, self.H, R,
-                                                               self.n_harmonics_int, w)
+                                                               self.n_harmonics_int, w, phase)
         if fit:
-            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds,
+                                'phase': (len(y) + phase) % self.m})
 
             self.coeffs_t_history = coeffs_t_history.T
 
@@ -522,7 +532,9 @@ class FK_multi(StatefulForecaster):
             for j in range(self.n_predictors):
                 self.models[j].fit(x_pd)
 
-        preds_experts = np.dstack([ self.models[j].predict(x_pd) for j in range(self.n_predictors)])
+        # while fitting, use the forecasts made in sequence: predict continues from the end of the training set
+        preds_experts = np.dstack([self.models[j].y_hat_tr if fit else self.models[j].predict(x_pd)
+                                   for j in range(self.n_predictors)])
 
 
         for i, idx in enumerate(x_pd.index):
-- 
2.43.0


From 006685ceb1a569325ae1f6f654c125a88f0ff6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 029/100] fix: quantiles of FK_multi were labelled with other
 steps than its forecasts

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index fd411c5..61c2598 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -509,7 +509,7 @@ class FK_multi(StatefulForecaster):
         # hankelize the target
         hw_target = hankel(x_pd[self.target_name].values[1:], self.n_sa)
         resid = hw_target - preds
-        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
+        self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa + 1)]
         resid = pd.DataFrame(resid, index=x_pd.index[:-self.n_sa], columns=self.target_cols)
         self.err_distr = np.quantile(resid, self.q_vect, axis=0).T
         return self
-- 
2.43.0


From 8c156f23ee44f79650d287158291d80bc550cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 030/100] fix: the match matrix of scenred ignored all but the
 first variable

---
 pyforecaster/scenred.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 807837f..ef682d8 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -180,7 +180,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
     # obtain the match matrix
     Me = np.zeros((S.shape[1], S.shape[1], n_steps))
     for i in np.arange(n_steps):
-        D = get_dist(S[i, :, 0].reshape(-1, 1), pars['metric'])
+        D = get_dist(S[i], pars['metric'])
         # D[np.eye(D.shape[0],dtype=bool)] = 1
         Me[:, :, i] = D == 0
 
-- 
2.43.0


From 8e4f2dc8fa99ad2d209e5e8f78070609b147c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 031/100] fix: the Kalman update reduced the covariance twice

---
 pyforecaster/utilities.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index 27050c6..4e17fa5 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -36,7 +36,6 @@ def kalman_update(x, P, y, H, R):
     S = np.dot(H, np.dot(P, H.T)) + R
     K = np.dot(P, np.dot(H.T, np.linalg.pinv(S)))
     x = x + np.dot(K, (y - np.dot(H , x)))
-    P = P - np.dot(K,np.dot(H, P))
     I_KH = np.eye(K.shape[0]) - np.dot(K, H)
     P = np.dot(I_KH,np.dot(P,I_KH.T)) + np.dot(K, np.dot(R, K.T))
     return x, P
-- 
2.43.0


From 97581a13c6037084f291caad681d271cd6689908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 032/100] fix: FK_multi weighted its experts by comparing
 forecasts of the next step with the last observation

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 61c2598..1d1fca4 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -542,7 +542,7 @@ class FK_multi(StatefulForecaster):
                 # average last point error over different prediction times for all the models
                 last_obs = x_pd[self.target_name].iloc[i]
                 # sometimes persistence error is too small, sometimes signal could be small. We normalize by the average
-                norm_avg_err = [np.mean([np.abs(preds_experts[i-sa, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
+                norm_avg_err = [np.mean([np.abs(preds_experts[i-sa-1, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
                 norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err)
                 coeffs_t = np.exp(-np.array(norm_avg_err)) / np.exp(-np.array(norm_avg_err)).sum()
             else:
-- 
2.43.0


From ec907c68236c0c6aa2de220e2ffaba99015f280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 033/100] fix: FK_multi forecasts were undefined after all its
 experts had been exact

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 1d1fca4..83e51f4 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -543,7 +543,8 @@ class FK_multi(StatefulForecaster):
                 last_obs = x_pd[self.target_name].iloc[i]
                 # sometimes persistence error is too small, sometimes signal could be small. We normalize by the average
                 norm_avg_err = [np.mean([np.abs(preds_experts[i-sa-1, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
-                norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err)
+                # experts which are all exact are all as good
+                norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err) if np.any(norm_avg_err) else np.ones(self.n_predictors)
                 coeffs_t = np.exp(-np.array(norm_avg_err)) / np.exp(-np.array(norm_avg_err)).sum()
             else:
                 coeffs_t = x
-- 
2.43.0


From 34c453d3b222f31cc68aabddf9ffaca8d3743cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 034/100] fix: FK failed when one of its coefficients was
 constant over the first m observations

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 83e51f4..177b881 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -292,8 +292,11 @@ def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m,
         coeffs_t_history[:, i] = coeffs
 
         if i % m == 0 and i >= m:
-            Q = np.corrcoef(coeffs_t_history[:, :i])
-            R = Q * 0.01
+            corr = np.corrcoef(coeffs_t_history[:, :i])
+            # coefficients which never changed have no correlation: keep the noise we have
+            if np.all(np.isfinite(corr)):
+                Q = corr
+                R = Q * 0.01
             #P = np.eye(n_harmonics * 2 + 1) * 1000
 
     return preds, last_1sa_preds, eps, x, P, Q, R, coeffs_t_history, w
-- 
2.43.0


From d05ed0763b2940ec5a5dd56b32a454094111cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 035/100] fix: hierarchy levels missed the root when its only
 child was an aggregation

---
 pyforecaster/reconciliation/reconciliation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index a6b2eb9..7894d82 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -39,8 +39,8 @@ class HierarchicalReconciliation:
         return self.hierarchy_flatten
 
     def get_hierarchy_levels(self):
-        l = pd.DataFrame({k: len(v) for k, v in self.hierarchy_flatten.items()}, index=[0])
-        root = l.idxmax(1).values[0]
+        children = [c for v in self.hierarchy.values() for c in v]
+        root = [k for k in self.hierarchy.keys() if k not in children][0]
         # build levels starting from root
         levels = pd.DataFrame(self.explore_hierarchy(self.hierarchy, root), index=['level']).T
         return levels
-- 
2.43.0


From cec7fd8c774039d62673580484016d90b86b3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 036/100] fix: reconciled series were mislabelled when they
 came in another order than in training

---
 pyforecaster/reconciliation/reconciliation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 7894d82..780252c 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -318,8 +318,8 @@ class HierarchicalReconciliation:
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
         y_rec = y_rec.T
-        y_rec.columns = y_hat.columns
-        return y_rec
+        y_rec.columns = self.ordered_cols
+        return y_rec[y_hat.columns]
 
     def get_summation_matrix(self, y, hierarchy):
         self.bottom_series = [c for c in y.columns if c not in hierarchy.keys()]
@@ -329,7 +329,7 @@ class HierarchicalReconciliation:
         self.n_u = n_all - self.n_b
         I = np.eye(self.n_b)
         self.s_matrix = np.vstack([self.a_matrix, I])
-        self.aggregated_series = [c for c in y.columns if c not in self.bottom_series]
+        self.aggregated_series = list(self.hierarchy_flatten.keys())
 
     @staticmethod
     def estimate_covariance(x, method):
-- 
2.43.0


From a8cddf2c3f6f895cac9e4dac97c6d612f99da393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 037/100] fix: Bayesian reconciliation failed on any hierarchy

---
 pyforecaster/reconciliation/reconciliation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 780252c..54d1094 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -295,7 +295,7 @@ class HierarchicalReconciliation:
         elif self.method == 'bayes':
             cov_b, precision_b = self.estimate_covariance(err_b.values, method=cov_method)
             if err_u.shape[1] < 2:
-                cov_u = np.std(err_u)
+                cov_u = np.atleast_2d(np.var(err_u.values))
             else:
                 cov_u, precision_u = self.estimate_covariance(err_u.values, method=cov_method)
             self.g_matrix = cov_b @ self.a_matrix.T @ np.linalg.inv(cov_u + self.a_matrix @ cov_b @ self.a_matrix.T)
@@ -311,10 +311,10 @@ class HierarchicalReconciliation:
         if self.method in ['dummy', 'minT']:
             y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].T
         elif self.method == 'bayes':
-            y_b = y_hat.loc[:, self.bottom_series]
-            y_u = y_hat.loc[:, self.aggregated_series]
+            y_b = y_hat.loc[:, self.bottom_series].values
+            y_u = y_hat.loc[:, self.aggregated_series].values
             y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
-            y_rec = self.s_matrix @ y_b_rec
+            y_rec = pd.DataFrame(self.s_matrix @ y_b_rec, columns=y_hat.index)
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
         y_rec = y_rec.T
-- 
2.43.0


From 38dd7b282d5f65c228c36591d83d349f4d1e6d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 038/100] fix: quantiles of the base forecasts of a hierarchy
 failed

---
 pyforecaster/reconciliation/reconciliation.py | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 54d1094..e8222bd 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -3,7 +3,7 @@ import pandas as pd
 from sklearn.covariance import GraphicalLassoCV, ShrunkCovariance
 from pyforecaster.forecaster import LinearForecaster
 from tqdm import tqdm
-from pyforecaster.utilities import convert_multiindex_pandas_to_tensor, from_tensor_to_pdmultiindex
+from pyforecaster.utilities import convert_multiindex_pandas_to_tensor
 from pyforecaster.utilities import get_logger
 import seaborn as sb
 from pyforecaster.plot_utils import plot_scenarios_from_multilevel
@@ -101,21 +101,15 @@ class HierarchicalReconciliation:
 
         return y_hat
     def get_quantiles(self, x: pd.DataFrame, level='bottom'):
-        steps_ahead = len(self.steps)
         if level == 'bottom':
             bottom_series = [c for c in x['name'].unique() if c not in self.hierarchy.keys()]
-            q_hat = pd.concat({k: from_tensor_to_pdmultiindex(
-                    self.models_dict['bottom'].predict_quantiles(
-                        x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    bottom_series}, axis=1)
+            q_hat = pd.concat({k: self.models_dict['bottom'].predict_quantiles(x.loc[x['name'].isin([k])]
+                                                                               .drop('name', axis=1)) for k in
+                               bottom_series}, axis=1)
         elif level == 'aggregations':
-            q_hat = pd.concat(
-                {k: from_tensor_to_pdmultiindex(
-                    self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    self.hierarchy.keys()},
-                axis=1)
+            q_hat = pd.concat({k: self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])]
+                                                                        .drop('name', axis=1)) for k in
+                               self.hierarchy.keys()}, axis=1)
         elif level == 'all':
             q_hat_bottom = self.get_quantiles(x, level='bottom')
             q_hat_aggr = self.get_quantiles(x, level='aggregations')
-- 
2.43.0


From fd9e144f4e8d6e8086093562f00a407de2bdc15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 039/100] fix: scenarios of a hierarchy were restricted to
 frames as long as the training set, base ones used the errors of the
 reconciled

---
 pyforecaster/reconciliation/reconciliation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index e8222bd..1ab6d42 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -243,15 +243,17 @@ class HierarchicalReconciliation:
                                                     droplevel(1, 1)) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
+        errs = self.errs_hat if method == 'vanilla' else self.errs_tilde
         scens = []
         for h in range(24):
-            h_idx_tr = self.errs_tilde.index.hour == h
+            h_idx_tr = errs.index.hour == h
+            h_idx_te = y_hat.index.hour == h
             if method == 'vanilla':
-                y_hat_h = y_hat.loc[h_idx_tr]
+                y_hat_h = y_hat.loc[h_idx_te]
             elif method == 'reconciled':
-                y_hat_h = y_tilde.loc[h_idx_tr]
+                y_hat_h = y_tilde.loc[h_idx_te]
             n_times = y_hat_h.shape[0]
-            scens.append(pd.concat({s: y_hat_h + self.errs_tilde.loc[h_idx_tr]
+            scens.append(pd.concat({s: y_hat_h + errs.loc[h_idx_tr]
                       .sample(n_times, replace=True)
                       .reset_index(drop=True)
                       .set_index(y_hat_h.index) for s in range(self.n_scenarios)},axis=1,names=['scenario', 'series', 'step'])\
-- 
2.43.0


From ce52729e1d8068475a55d7993fa3a1241d33f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:19 +0000
Subject: [PATCH 040/100] fix: forecasts of all steps of a hierarchy were
 reconciled with the errors of the last step

---
 pyforecaster/reconciliation/reconciliation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 1ab6d42..74c91ac 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -25,6 +25,7 @@ class HierarchicalReconciliation:
         self.g_matrix = None
         self.p_matrix = None
         self.ordered_cols = None
+        self.step_matrices = None
         self.base_forecaster_class = base_forecaster_class
         self.base_forecaster_kwargs = forecaster_kwargs
         self.models_dict = None
@@ -177,6 +178,7 @@ class HierarchicalReconciliation:
         # fit reconciliation for all the steps ahead, keep errors, pre- and post-reconciliation
         self.steps = y_tr.columns.get_level_values(1).unique()
         errs_hat, errs_tilde = {}, {}
+        self.step_matrices = {}
         target_names = y_hat.columns.get_level_values(1).unique()
         for t_name in tqdm(target_names):
             # ---------------------------- get base predictions, ground truth for sa ---------------------------------------
@@ -185,6 +187,7 @@ class HierarchicalReconciliation:
 
             # ---------------------------- fit, predict -------------------------------------------------------------------
             self.fit_reconciliation(y_sa, y_hat_sa, self.hierarchy)
+            self.step_matrices[t_name] = (self.p_matrix, self.g_matrix)
             y_tilde_sa = self.reconcile(y_hat_sa)
 
             # ---------------------------- retrieve error samples from the training set ------------------------------------
@@ -208,7 +211,7 @@ class HierarchicalReconciliation:
         for t_name in tqdm(target_names):
             # get reconciled forecasts at this step ahead
             y_hat_sa = y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].droplevel(1, 1)
-            y_tilde[t_name] = self.reconcile(y_hat_sa)
+            y_tilde[t_name] = self.reconcile(y_hat_sa, step=t_name)
 
         y_tilde = pd.concat(y_tilde, axis=1).swaplevel(0, 1, axis=1).sort_index(axis=1)
 
@@ -240,7 +243,7 @@ class HierarchicalReconciliation:
         target_names = y_hat.columns.get_level_values(1).unique()
         if method == 'reconciled':
             y_tilde = pd.concat({t_name: self.reconcile(y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].
-                                                    droplevel(1, 1)) for t_name in target_names}, axis=1)
+                                                    droplevel(1, 1), step=t_name) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
         errs = self.errs_hat if method == 'vanilla' else self.errs_tilde
@@ -303,13 +306,15 @@ class HierarchicalReconciliation:
 
         return y_rec
 
-    def reconcile(self, y_hat):
+    def reconcile(self, y_hat, step=None):
+        # the reconciliation of the given step ahead, the last fitted one if it is not given
+        p_matrix, g_matrix = (self.p_matrix, self.g_matrix) if step is None else self.step_matrices[step]
         if self.method in ['dummy', 'minT']:
-            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].T
+            y_rec = self.s_matrix @ p_matrix @ y_hat[self.ordered_cols].T
         elif self.method == 'bayes':
             y_b = y_hat.loc[:, self.bottom_series].values
             y_u = y_hat.loc[:, self.aggregated_series].values
-            y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
+            y_b_rec = y_b.T + g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
             y_rec = pd.DataFrame(self.s_matrix @ y_b_rec, columns=y_hat.index)
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
-- 
2.43.0


From 0ce69ee9a6a4369bafea17d5e011c1d87bb040e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:43 +0000
Subject: [PATCH 041/100] fix: base forecasters of a hierarchy ignored the
 quantile levels asked

---
 pyforecaster/reconciliation/reconciliation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 74c91ac..9270cd3 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -159,13 +159,13 @@ class HierarchicalReconciliation:
         models_dict = {}
         for k in self.hierarchy.keys():
             filt_k = x['name'] == k
-            m = self.base_forecaster_class(**self.base_forecaster_kwargs)
+            m = self.base_forecaster_class(q_vect=self.q_vect, **self.base_forecaster_kwargs)
             models_dict[k] = m.fit(x.loc[filt_k].drop('name', axis=1), y.loc[filt_k])
 
         # train a global model for the bottom series
         bottom_series = [c for c in x['name'].unique() if c not in self.hierarchy.keys()]
         filt_k = x['name'].isin(bottom_series)
-        m = self.base_forecaster_class(**self.base_forecaster_kwargs)
+        m = self.base_forecaster_class(q_vect=self.q_vect, **self.base_forecaster_kwargs)
         models_dict['bottom'] = m.fit(x.loc[filt_k].drop('name', axis=1), y.loc[filt_k])
         self.models_dict = models_dict
 
-- 
2.43.0


From 04079b30a93a92a436cb8b450eb3e9d9ded2a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 042/100] fix: summary_score must not rename the columns of the
 caller's forecasts

---
 pyforecaster/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 999cb54..d7499dd 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -145,7 +145,7 @@ def summary_score(x, t, score=rmse, agg_index=None):
             if not isinstance(t, pd.DataFrame):
                 t = pd.DataFrame(t, index=x.index)
         elif isinstance(x, pd.DataFrame) and isinstance(t, pd.DataFrame):
-            x.columns = t.columns
+            x = x.set_axis(t.columns, axis=1)
         elif isinstance(x, pd.DataFrame):
             t = pd.DataFrame(t, index=x.index, columns=x.columns)
         elif isinstance(t, pd.DataFrame):
-- 
2.43.0


From dab639bcf690f85895b8e7f8a57b0aa7a3bd249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 043/100] fix: reliability without levels must count the
 quantiles on their own axis, also for frames

---
 pyforecaster/metrics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index d7499dd..114e42a 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -101,7 +101,6 @@ def crps(q_hat, t, alphas=None, agg_index=None, collapse_quantile_axis=True, **k
 
 
 def reliability(q_hat, t, alphas=None, agg_index=None, get_score=False, **kwargs):
-    alphas = np.linspace(0, 1, q_hat.shape[2]) if alphas is None else alphas
     _, reliability = quantile_scores(q_hat, t, alphas=alphas, agg_index=agg_index)
 
     # subtract to reliability dataframe the name of the first level of the multiindex dataframe
-- 
2.43.0


From 983428736e9730d589d9be05f82c65d14beb589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 044/100] fix: summary_scores must quantize only the
 non-integer grouping columns, not those next to them

---
 pyforecaster/metrics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 114e42a..48743d4 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -1,6 +1,7 @@
 import numpy as np
 import pandas as pd
 from itertools import permutations
+from pandas.api.types import is_datetime64_any_dtype, is_float_dtype
 from pyforecaster.forecaster import ScenarioGenerator
 
 def chose_axis(x, agg_index):
@@ -168,11 +169,10 @@ def summary_scores(x, t, metrics, idxs: pd.DataFrame, mask=None, n_quantiles=10)
     t = t if mask is None else t * mask[mask].values
 
     # quantize non-integer data
-    if np.any(~agg_indexes.dtypes.isin([np.dtype('int'), np.dtype('int32'), np.dtype('int8'), np.dtype('int64'), np.dtype('object')])):
-        qcuts = [pd.qcut(agg_indexes.loc[:, k], n_quantiles, duplicates='drop') for k in agg_indexes.columns if agg_indexes[k].dtype != int and len(agg_indexes[k].value_counts())>=n_quantiles]
-        if len(qcuts)>0:
-            replacement_idxs = [agg_indexes[k].dtype != int and len(agg_indexes[k].value_counts())>=n_quantiles for k in agg_indexes.columns]
-            agg_indexes.loc[:, replacement_idxs] = pd.concat(qcuts, axis=1)
+    for k in agg_indexes.columns:
+        v = agg_indexes[k]
+        if (is_float_dtype(v) or is_datetime64_any_dtype(v)) and len(v.value_counts()) >= n_quantiles:
+            agg_indexes[k] = pd.qcut(v, n_quantiles, duplicates='drop')
 
     scores_df = {}
     for m in metrics:
-- 
2.43.0


From 97acff02fcd5299d812936ca7f5cb8140a48e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 045/100] fix: summary_scores of quantile forecasts must ignore
 masked targets

---
 pyforecaster/metrics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 48743d4..d89d621 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -72,7 +72,7 @@ def quantile_scores(q_hat, t, alphas=None, agg_index=None, **kwargs):
             err_alpha = q_hat[:, a, :] - t.values
         else:
             err_alpha = q_hat[:, :, a] - t.values
-        I = (err_alpha > 0).astype(int)
+        I = np.where(np.isnan(err_alpha), np.nan, err_alpha > 0)
         qs_a = (I - alpha) * err_alpha
 
         if axis == 0:
@@ -165,8 +165,10 @@ def summary_scores(x, t, metrics, idxs: pd.DataFrame, mask=None, n_quantiles=10)
                                                                      'Please, check.'
 
     # mask[mask] transform a boolean mask in a 1.0-NaN mask
-    x = x if mask is None else x * mask[mask].values
-    t = t if mask is None else t * mask[mask].values
+    valid = None if mask is None else mask[mask].values.astype(float)
+    if mask is not None and np.shape(x) == mask.shape:
+        x = x * valid
+    t = t if mask is None else t * valid
 
     # quantize non-integer data
     for k in agg_indexes.columns:
-- 
2.43.0


From debc257d392a79cfb239ff2956e6ed92adb86144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 046/100] fix: reduce_mem_usage failed on categorical columns

---
 pyforecaster/big_data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 5f835ff..f2f2cda 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -127,7 +127,7 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
 
 def reduce_mem_usage_series(s):
     col_type = s.dtype
-    if col_type != object:
+    if col_type != object and not isinstance(col_type, pd.CategoricalDtype):
         c_min = s.min()
         c_max = s.max()
         if str(col_type)[:3] == 'int':
-- 
2.43.0


From ce6e5c572f588d4d9a1b5089baca39e7d6fd4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 047/100] fix: fdf_parallel without ray processed the first
 split only and sorted the column names

---
 pyforecaster/big_data_utils.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index f2f2cda..92a8b96 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -80,24 +80,12 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
         numpy_parallelizable = False
 
     if numpy_parallelizable and not use_ray:
-        if axis==0:
-            df_shape_0 = sum([x.shape[0] for x in dfs])
-            df_shape_1 = dfs[0].shape[1]
-            df_columns = np.unique(dfs[0].columns)
-        else:
-            df_shape_0 = dfs[0].shape[0]
-            df_shape_1 = sum([x.shape[1] for x in dfs])
-            df_columns = np.unique([x.columns for x in dfs])
-
-        df_shape = (df_shape_0, df_shape_1)
-
-        df_indexes = np.hstack([x.index.ravel() for x in dfs]) if axis==0 else dfs[0].index
-
-        res = mapper(f, [df.values for df in [dfs[0]]])
+        whole = pd.concat(dfs, axis=axis)
+        res = mapper(f, [x.values for x in dfs])
         res = np.vstack(res) if axis == 0 else np.hstack(res)
 
-        if res.shape == df_shape:
-            res = pd.DataFrame(res, columns=df_columns, index=df_indexes)
+        if res.shape == whole.shape:
+            res = pd.DataFrame(res, columns=whole.columns, index=whole.index)
 
     else:
         if not ray.is_initialized():
-- 
2.43.0


From 9436e3f732ec4963ed8fcadfcf6a100737893bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 048/100] fix: reduce_mem_usage in parallel without ray must
 keep the type and the labels of each column

---
 pyforecaster/big_data_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 92a8b96..7834aa2 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -164,7 +164,9 @@ def reduce_mem_usage(df, parallel=True, logger=None, use_ray=True):
         if use_ray:
             df = fdf_parallel(reduce_mem_usage_df, df, axis=1, use_ray=use_ray)
         else:
-            df = fdf_parallel(reduce_mem_usage_np, df, axis=1, use_ray=use_ray)
+            # frames, not arrays: an array has a single type, which cannot keep those of all the columns
+            dfs = array_split(df, min(cpu_count(), df.shape[1]), axis=1)
+            df = pd.concat(mapper(reduce_mem_usage_df, dfs), axis=1)
     else:
         for col in tqdm(df.columns):
             df[col] = reduce_mem_usage_series(df[col])
-- 
2.43.0


From 633883274965e69a43aba5259e7179d2f3987f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 049/100] fix: reduce_mem_usage doubled the memory of single
 precision columns with infinite or only missing values

---
 pyforecaster/big_data_utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 7834aa2..b01592e 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -132,8 +132,6 @@ def reduce_mem_usage_series(s):
             #     s = s.astype(np.float16)
             if c_min > np.finfo(np.float32).min and c_max < np.finfo(np.float32).max:
                 s = s.astype(np.float32)
-            else:
-                s = s.astype(np.float64)
     return s
 
 
-- 
2.43.0


From c4f95838d53894f369976cb99e91b41c88bd05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 050/100] fix: reduce_mem_usage enlarged integer columns that
 reach the limits of their type

---
 pyforecaster/big_data_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index b01592e..7cd2763 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -119,13 +119,13 @@ def reduce_mem_usage_series(s):
         c_min = s.min()
         c_max = s.max()
         if str(col_type)[:3] == 'int':
-            if c_min > np.iinfo(np.int8).min and c_max < np.iinfo(np.int8).max:
+            if c_min >= np.iinfo(np.int8).min and c_max <= np.iinfo(np.int8).max:
                 s = s.astype(np.int8)
-            elif c_min > np.iinfo(np.int16).min and c_max < np.iinfo(np.int16).max:
+            elif c_min >= np.iinfo(np.int16).min and c_max <= np.iinfo(np.int16).max:
                 s = s.astype(np.int16)
-            elif c_min > np.iinfo(np.int32).min and c_max < np.iinfo(np.int32).max:
+            elif c_min >= np.iinfo(np.int32).min and c_max <= np.iinfo(np.int32).max:
                 s = s.astype(np.int32)
-            elif c_min > np.iinfo(np.int64).min and c_max < np.iinfo(np.int64).max:
+            elif c_min >= np.iinfo(np.int64).min and c_max <= np.iinfo(np.int64).max:
                 s = s.astype(np.int64)
         elif str(col_type)[:5] == 'float':
             # if c_min > np.finfo(np.float16).min and c_max < np.finfo(np.float16).max:
-- 
2.43.0


From 889f933e44994f970442f7f7b5834a7412e4a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 051/100] fix: SeasonalPersistent forecasts were one step late,
 and failed beyond one season

---
 pyforecaster/forecasting_models/benchmarks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index f411510..4c1487c 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -51,8 +51,10 @@ class SeasonalPersistent(ScenarioGenerator):
 
     def predict(self, x: pd.DataFrame, **kwargs):
         values = np.hstack([self.state.ravel(), x[self.target_col].values])
-        y_hat = hankel(values, self.n_sa)
-        return pd.DataFrame(y_hat[:len(x), :], index=x.index)
+        # values[i + 1] is what was observed one season before the step ahead of row i; steps beyond one season repeat it
+        steps = np.arange(self.n_sa) % self.seasonality + 1
+        y_hat = values[np.arange(len(x)).reshape(-1, 1) + steps]
+        return pd.DataFrame(y_hat, index=x.index)
 
     def _predict_quantiles(self, x: pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-- 
2.43.0


From 719250f26b05054e482ce5ab53a8d9ff46ecf3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 052/100] fix: forecasts of DiscreteDistr lost the index of the
 rows asked, and were zero where nothing was observed

---
 pyforecaster/forecasting_models/benchmarks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index 4c1487c..fd98471 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -111,7 +111,7 @@ class DiscreteDistr(ScenarioGenerator):
         return self
 
     def predict(self, x, **kwargs):
-        return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0).sum().T
+        return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0).sum(min_count=1).T
 
     def predict_probabilities(self, x, **kwargs):
         # infer sampling time
@@ -126,5 +126,5 @@ class DiscreteDistr(ScenarioGenerator):
                       self.y_distributions[t].columns]
             y_hat[t] = pd.concat(pres_t, axis=1)
 
-        return pd.concat(y_hat, axis=1)
+        return pd.concat(y_hat, axis=1).set_index(x.index)
 
-- 
2.43.0


From 00756b7cce3b21e7ee341a260be46f1458ace70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 053/100] fix: DiscreteDistr must look up times of day with the
 sampling time of its training, also for single rows and when clocks change

---
 pyforecaster/forecasting_models/benchmarks.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index fd98471..2904092 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -77,11 +77,12 @@ class DiscreteDistr(ScenarioGenerator):
         self.target_names = None
         self.y_distributions = None
         self.support = None
+        self.sampling_time = None
 
     def fit(self, x:pd.DataFrame, y:pd.DataFrame):
         self.n_sa = y.shape[1]
         # infer sampling time
-        sampling_time = x.index.drop_duplicates().diff().median()
+        self.sampling_time = x.index.drop_duplicates().diff().median()
 
         # retrieve support of target distribution
         support = np.unique(y.values)
@@ -89,7 +90,7 @@ class DiscreteDistr(ScenarioGenerator):
         print('support of target distribution:', support)
 
         # Create a new column for the time within a day (hours and minutes)
-        time_of_day = y.index.floor(sampling_time).time
+        time_of_day = self.time_of_day(y.index)
 
         # Group by this time of day and calculate the mean across all days
         mean_by_time_of_day = {}
@@ -110,14 +111,16 @@ class DiscreteDistr(ScenarioGenerator):
         self.target_cols = [f'{t}_t+{i}' for t in self.target_names for i in range(1, self.n_sa+1)]
         return self
 
+    def time_of_day(self, index):
+        # time stamps cannot be floored in a time zone where clocks change
+        return index.tz_localize(None).floor(self.sampling_time).time
+
     def predict(self, x, **kwargs):
         return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0).sum(min_count=1).T
 
     def predict_probabilities(self, x, **kwargs):
-        # infer sampling time
-        sampling_time = x.index.drop_duplicates().diff().median()
         # Create a new column for the time within a day (hours and minutes)
-        time_of_day = pd.Series(x.index.floor(sampling_time).time)
+        time_of_day = pd.Series(self.time_of_day(x.index))
 
         # retrieve the distribution for the time of day
         y_hat = {}
-- 
2.43.0


From 5285bb861c4a2539e90d4f9220101f94bb4f706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 054/100] fix: folds given as positions failed in random_fold
 cross validation and when storing results

---
 pyforecaster/trainer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 077b051..19fdbb2 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -20,6 +20,14 @@ def get_score_key(cv_results, scoring, score_key=None):
     score_key = score_key if score_key is not None else fallback_name
     return score_key
 
+def select_rows(x, idx):
+    """
+    Rows of a fold, which can be positions (as the ones of sklearn's splitters), a boolean mask or labels of the index
+    """
+    idx = idx if isinstance(idx, (pd.Series, pd.Index)) else np.asarray(idx)
+    return x.iloc[np.asarray(idx)] if idx.dtype.kind in 'iub' else x.loc[idx]
+
+
 def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=None, cv_type='full',
                    trial=None, storage_fun=None, score_key=None, **cv_kwargs):
     """
@@ -51,12 +59,12 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
             trial.set_user_attr('cv_test_scores', scores)
 
         if storage_fun:
-            cv_results['y_te'] = {'fold_{}'.format(i): y.loc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
-            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.loc[cv_idxs[1]]) for i, cv_idxs, m in
+            cv_results['y_te'] = {'fold_{}'.format(i): select_rows(y, cv_idxs[1]) for i, cv_idxs in enumerate(cv_folds)}
+            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(select_rows(x, cv_idxs[1])) for i, cv_idxs, m in
                                    zip(range(len(cv_folds)), cv_folds, cv_results['estimator'])}
     elif cv_type == 'random_fold':
         tr_idx, te_idx = cv_folds[np.random.choice(len(cv_folds), 1)[0]]
-        x_tr, x_te, y_tr, y_te = x.loc[tr_idx], x.loc[te_idx], y.loc[tr_idx], y.loc[te_idx]
+        x_tr, x_te, y_tr, y_te = [select_rows(d, i) for d in (x, y) for i in (tr_idx, te_idx)]
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
         cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
-- 
2.43.0


From 1c9cc00be26bbf60e6037d8ef30e5135e74369c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 055/100] fix: cross_validate failed on folds from a generator
 with storage_fun or random_fold

---
 pyforecaster/trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 19fdbb2..2e28417 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -43,6 +43,8 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
     :param cv_kwargs: additional arguments to be passed to the cross validation function
     :return:
     """
+    # folds are needed more than once, also if they come from a generator
+    cv_folds = list(cv_folds)
     # create generator
     cv_gen = (f for f in cv_folds)
 
-- 
2.43.0


From 4ef0b0ec831a6fe2a0bec3210efae5f9bbd4dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 056/100] fix: random_fold cross validation failed with a
 dictionary of scorers

---
 pyforecaster/trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 2e28417..eaee535 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -16,6 +16,8 @@ def default_param_space_fun(trial):
 
 def get_score_key(cv_results, scoring, score_key=None):
     fallback_name = 'test_' + list(scoring.keys())[0] if isinstance(scoring, dict) else list(cv_results.keys())[-1]
+    # scores of a random fold are named as the scorers
+    fallback_name = fallback_name if fallback_name in cv_results.keys() else fallback_name.replace('test_', '', 1)
     fallback_name = 'test_score' if 'test_score' in cv_results.keys() else fallback_name
     score_key = score_key if score_key is not None else fallback_name
     return score_key
-- 
2.43.0


From f85410ee62377776452e3a6acbf09e6f4f2f7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 057/100] fix: parameters of a trial leaked into the next ones
 when tuning hyperparameters

---
 pyforecaster/trainer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index eaee535..424d07d 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -1,6 +1,7 @@
 from sklearn.model_selection import cross_validate as sklear_cv
 from sklearn.model_selection import KFold
 from sklearn.metrics import make_scorer
+from sklearn.base import clone
 import optuna
 import pandas as pd
 from pyforecaster.metrics import nmae, make_scorer
@@ -107,7 +108,11 @@ def optuna_objective(trial, x: pd.DataFrame, y: pd.DataFrame, model, cv, scoring
     if not np.all([k in list(signature(model.__class__).parameters.keys()) + list(model.get_params().keys()) for k in params.keys()]):
         raise ValueError('not all parameter space names are in the model signature. This means they will not affect the'
                          ' performance of your model. Something is wrong')
+    # each trial must start from the original model, not from the parameters and state left by the previous ones. The
+    # second clone is built with the parameters of the trial
+    model = clone(model)
     model.set_params(**params)
+    model = clone(model)
 
     # retrieve cross validation score
     cv_results, score = cross_validate(x, y, model, cv, scoring=scoring, cv_type=cv_type, trial=trial,
-- 
2.43.0


From 4d5d81b368e67bacfad870a802d78e3b880ef7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 058/100] fix: clones of forecasters lost the formatter, the
 tree nodes and the scenario settings passed through

---
 pyforecaster/forecaster.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index c03b4c4..0327c61 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -12,6 +12,7 @@ from sklearn.preprocessing import LabelEncoder
 from pyforecaster.scenarios_generator import ScenGen
 from pyforecaster.utilities import get_logger
 from inspect import signature
+from copy import deepcopy
 
 
 def _validate_max_scengen_rows(value: Optional[Union[int, np.integer]]):
@@ -73,6 +74,8 @@ class ScenarioGenerator(BaseEstimator):
         self.max_scengen_rows = int(max_scengen_rows) if max_scengen_rows is not None else None
         self.scengen_random_state = int(scengen_random_state) if scengen_random_state is not None else None
         self.q_vect = np.hstack([0.01, np.linspace(0,1,11)[1:-1], 0.99]) if q_vect is None else q_vect
+        self.nodes_at_step = nodes_at_step
+        self._scengen_kwgs = scengen_kwgs
         self.scengen = ScenGen(q_vect=self.q_vect, nodes_at_step=nodes_at_step, additional_node=additional_node, **scengen_kwgs)
         self.val_ratio = val_ratio
         self.err_distr = {}
@@ -97,6 +100,19 @@ class ScenarioGenerator(BaseEstimator):
     def get_params(self, **kwargs):
         return {k: getattr(self, k) for k in signature(self.__class__).parameters.keys() if k in self.__dict__.keys()}
 
+    def __sklearn_clone__(self):
+        # arguments which a subclass passes through are not among its parameters, but clones must keep them
+        new = super().__sklearn_clone__()
+        pars = signature(self.__class__).parameters
+        for k in ['nodes_at_step', 'n_scen_fit', 'additional_node', 'formatter', 'conditional_to_hour',
+                  'max_scengen_rows', 'scengen_random_state', 'logger']:
+            if k not in pars:
+                setattr(new, k, deepcopy(getattr(self, k)))
+        new._scengen_kwgs = deepcopy(self._scengen_kwgs)
+        new.scengen = ScenGen(q_vect=new.q_vect, nodes_at_step=new.nodes_at_step, additional_node=new.additional_node,
+                              **new._scengen_kwgs)
+        return new
+
     def _get_scengen_subsample_seed(self) -> int:
         if self.scengen_random_state is not None:
             return self.scengen_random_state
-- 
2.43.0


From 91285d200cb9d424158f458ae683b27fabe1c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 059/100] fix: kernel parameters of the random Fourier models
 could not be tuned, and were lost in clones

---
 pyforecaster/forecasting_models/random_fourier_features.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index b3d6085..b303aa5 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -334,6 +334,7 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
     def __init__(self, dim_kernel=16, std_kernel=0.1, W=None, b=None, q_vect=None, nodes_at_step=None, val_ratio=None,
                  logger=None, n_scen_fit=100, additional_node=False, base_model=LinearRegression, **scengen_kwgs):
         RandomFFRegressor.__init__(self, "rff", base_model, dim_kernel, std_kernel, W, b)
+        self.dim_kernel, self.std_kernel, self.base_model = dim_kernel, std_kernel, base_model
         ScenarioGenerator.__init__(self, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, logger=logger,
                                    n_scen_fit=n_scen_fit, additional_node=additional_node, **scengen_kwgs)
         self.scaler = None
@@ -363,6 +364,7 @@ class AdditiveRFFRegression(ScenarioGenerator):
     def __init__(self, n_models, dim_kernel=16, std_kernel=0.1, W=None, b=None, q_vect=None, nodes_at_step=None,
                  val_ratio=None, logger=None, n_scen_fit=100, additional_node=False, base_model=LinearRegression, **scengen_kwgs):
         self.n_models = n_models
+        self.dim_kernel, self.std_kernel, self.W, self.b, self.base_model = dim_kernel, std_kernel, W, b, base_model
         self.models = [RandomFFRegressor("rff", base_model, dim_kernel, std_kernel, W, b) for _ in range(n_models)]
         ScenarioGenerator.__init__(self, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, logger=logger,
                                    n_scen_fit=n_scen_fit, additional_node=additional_node, **scengen_kwgs)
-- 
2.43.0


From 7ed1fd22340dbf70d32a7fa9fce3cbee155b1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 060/100] fix: global form failed with shared signals whose
 names are not strings

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 2cd4ec5..4925344 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -599,12 +599,12 @@ class Formatter:
                                                                                      ' "target"'
         transformed_columns = [tr.names for tr in self.transformers]
         transformed_columns = [item for sublist in transformed_columns for item in sublist]
-        transformed_columns = list(set(np.unique(transformed_columns)) - {'target'})
+        transformed_columns = sorted(set(transformed_columns) - {'target'}, key=str)
         # if x is multiindex pd.DataFrame do something
         if isinstance(x.columns, pd.MultiIndex):
             # find columns names at level 0 that contains the targets
             c_l_0 = x.columns.get_level_values(0).unique()
-            private_cols_l0 = [c for c in c_l_0 if not np.all([str(t) in transformed_columns for t in x[c].columns])]
+            private_cols_l0 = [c for c in c_l_0 if not np.all([t in transformed_columns for t in x[c].columns])]
             shared_cols_l0 = list(set(c_l_0) - set(private_cols_l0))
             x_shared = x[shared_cols_l0].droplevel(0, 1)
             dfs = []
-- 
2.43.0


From 8c1e45bae6cf037c4e445e13db3e1d38392cff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 061/100] fix: sequential tuning of recursive forecasters
 failed after the first candidate

---
 pyforecaster/forecasting_models/holtwinters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 89a0f2b..abc9ef0 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -29,7 +29,8 @@ def hankel(x, n, generate_me=None):
 
 def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
     targets_names = model_init_kwargs['targets_names'] if 'targets_names' in model_init_kwargs.keys() else None
-    model_init_kwargs.update(pars_dict)
+    # the configuration is shared by all the candidates
+    model_init_kwargs = {**model_init_kwargs, **pars_dict}
     model = model_class(**model_init_kwargs)
     if targets_names is not None and model_class.__name__ not in ["HoltWintersMulti", "FK_multi"]:
         subscores = []
-- 
2.43.0


From e5b9bd58423884652246c4b26f5455e4b48fd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 062/100] fix: recursive forecasters could not be tuned on
 their own target only

---
 pyforecaster/forecasting_models/holtwinters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index abc9ef0..1b8cfbd 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -42,8 +42,10 @@ def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
             model.target_name = c
             subscores.append(score_autoregressive(model, x[features_names], target_name=c, n_sa=model.n_sa))
         score = np.mean(subscores)
-    else:
+    elif return_model:
         model.fit(x)
+    else:
+        score = score_autoregressive(model, x, target_name=model.target_name, n_sa=model.n_sa)
     if return_model:
         return model
     else:
-- 
2.43.0


From 7c174e126e51580184c2608b2790fa7bd0d4f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 063/100] fix: a transform of signals named by strings and
 numbers together was refused

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 4925344..3fd0573 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -637,7 +637,7 @@ class Formatter:
         # for all transformations
         for tr in self.transformers:
             # for all the features of the transformation
-            for v in np.unique(tr.metadata.name):
+            for v in tr.metadata.name.unique():
                 # reorder columns by correlation with first target
                 transformed_cols_names = tr.metadata.loc[tr.metadata['name']==v].index
                 if corr_reorder:
@@ -721,7 +721,7 @@ class Transformer:
                 assert self.dt is not None, "self.dt must be set if you don't pass x while simulating"
         else:
             assert x is not None, "x must be passed if simulate is False"
-            assert np.all(np.isin(self.names, x.columns)), "transformers names, {},  " \
+            assert all(n in x.columns for n in self.names), "transformers names, {},  " \
                                                            "must be in x.columns:{}".format(self.names, x.columns)
 
 
-- 
2.43.0


From 5a49b4ba017494fc0fa41e984890ec08c4d292d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 064/100] fix: scenarios which agree at a step lost their
 probability when reduced to a tree

---
 pyforecaster/scenred.py | 75 ++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 43 deletions(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index ef682d8..eafde0b 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -106,6 +106,8 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
 
     # probability matrix, initialized to the terminal probabilities of the leaves, 1/n_scen
     P = np.ones((n_steps, n_scen)) / n_scen
+    # scenario which stands for each scenario at each time
+    R = np.tile(np.arange(n_scen), (n_steps, 1))
     branches = n_scen
     for i in np.arange(n_steps-1, -1, -1):
         delta_rel = 0
@@ -145,6 +147,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
             P[i, idx_aug] = P[i, idx_rem] + P[i, idx_aug]
             P[i, idx_rem] = 0                                # set probability of removed scenarios to 0
             branches = np.sum(P[i, :] > 0)                   # count remaining branches
+            R[:i + 1, R[i] == idx_rem] = idx_aug
             L[idx_aug, idx_rem] = 1                          # keep track of which scenario has merged
 
             # the scenario who's been augmented inherit all the scenarios previously merged with the removed scenario
@@ -176,6 +179,8 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
 
     S = S[:, J[-1, :] > 0, :]
     P = P[:, J[-1, :] > 0]
+    # positions, among the remaining scenarios, of the ones standing for them
+    R = (np.cumsum(J[-1, :] > 0) - 1)[R[:, J[-1, :] > 0]]
 
     # obtain the match matrix
     Me = np.zeros((S.shape[1], S.shape[1], n_steps))
@@ -187,7 +192,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
     Me = np.swapaxes(Me, 2, 0)
 
     if np.shape(S)[1] <= 500:
-        g = get_network(S, P)
+        g = get_network(S, P, R)
     else:
         logger.warning('Warning: automatic retrieval of the network graph has been disabled because the number of '
                        'nodes is high. If you want to get the network graph anyway, call the get_network(S,P)')
@@ -274,7 +279,7 @@ def plot_from_graph(g, lines=None, ax=None, color=None, **kwargs):
 
 
 @njit
-def _get_network(S_s, P_s):
+def _get_network(S_s, P_s, parents=None):
     '''
     Get a network representation from the S_s and P_p matrices. The network is encoded in a networkx graph, each node
     has the following attribute:
@@ -286,6 +291,8 @@ def _get_network(S_s, P_s):
                 tree
     :param P_s: T*n_scen matrix, containing evolviong probabilities for each
                 scenario
+    :param parents: T*n_scen matrix, containing the scenario which stands for each scenario at each time. If None, it is
+                    retrieved from the values of the scenarios
     :return: g: a networkx graph with time, probability and values encoded with the connectivity of the nodes
     '''
 
@@ -301,53 +308,35 @@ def _get_network(S_s, P_s):
     attributes_v.append(S_s[0, P_s[0, :] > 0, :].ravel())
     edges_start = []
     edges_end = []
-    times, values = [], []
-    k = 0
+    # node of each of the scenarios which are alive at the previous time
+    past_nodes = {s: 0 for s in np.flatnonzero(P_s[0, :] > 0)}
     for t in range(1, P_s.shape[0]):
-        for s in range(P_s.shape[1]):
-            # span all the times, starting from second point (the root node is already defined)
-            # consider current point mu, and its previous point in its scenario
-            mu = S_s[t, s, :]
-            p = P_s[t, s]
-
-            # if probability of current point is zero, just go on
-            if p == 0:
-                continue
-            mu_past = S_s[t - 1, s, :]
-            # get current times in the tree
-            values_t = [v for v, time in zip(values, times) if time == t]
-            # check if values of current point s are present in the tree at current time
-            equals = [el for el in [np.array_equal(mu, a) for a in values_t] if el]
-
-            if len(equals)>0:
-                continue
+        nodes = {}
+        # scenarios whose probability is zero have been merged into another one: the remaining ones are the nodes
+        for s in np.flatnonzero(P_s[t, :] > 0):
+            if parents is not None:
+                past = parents[t - 1, s]
+            elif s in past_nodes:
+                past = s
             else:
-                values.append(mu)
-                times.append(t)
-                for x in range(len(attributes_t)):
-                    y_t = attributes_t[x]
-                    y_v = attributes_v[x]
-                    if y_t == t - 1 and np.array_equal(y_v, mu_past):
-                        parent_node = x
-                        break
-                else:
+                past = [k for k in past_nodes if np.array_equal(S_s[t - 1, k, :], S_s[t - 1, s, :])]
+                if len(past) == 0:
                     raise ValueError('The tree does not have a root! It is likely that you did required more than one node as first node')
-                # create the node and add an edge from current point to its parent
-                new_node += 1
-                attributes_t.append(t)
-                attributes_p.append(p)
-                attributes_v.append(mu)
-
-                edges_start.append(parent_node)
-                edges_end.append(new_node)
-                #g.add_node(new_node, t=t, p=p, v=mu, label=new_node)
-                #g.add_edge(parent_node[0], new_node)
-                # print('node %i added, with values' % (new_node), mu)
+                past = past[0]
+            # create the node and add an edge from current point to its parent
+            new_node += 1
+            nodes[s] = new_node
+            attributes_t.append(t)
+            attributes_p.append(P_s[t, s])
+            attributes_v.append(S_s[t, s, :])
+            edges_start.append(past_nodes[past])
+            edges_end.append(new_node)
+        past_nodes = nodes
     return edges_start, edges_end, attributes_t, attributes_p, attributes_v
 
 
-def get_network(S_s, P_s):
-    edges_start, edges_end, attributes_t, attributes_p, attributes_v = _get_network(S_s, P_s)
+def get_network(S_s, P_s, parents=None):
+    edges_start, edges_end, attributes_t, attributes_p, attributes_v = _get_network(S_s, P_s, parents)
     attributes = {i: {'t': t, 'p': p, 'v': v, 'label': i} for i, (t, p, v) in enumerate(zip(attributes_t, attributes_p, attributes_v))}
     edges = [(s, e) for s, e in zip(edges_start, edges_end)]
     g = nx.DiGraph(edges)
-- 
2.43.0


From 069b8bc2fe0cd38e2fdac363423a00cfd292bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 065/100] fix: trees grown from a valueless quantile tree
 failed or had integer values

---
 pyforecaster/tree_builders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index 8c0731f..b7b9fef 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -88,7 +88,7 @@ class ScenarioTree:
         elif self.base_tree == 'quantiles':
             # build valueless tree
             tree = nx.DiGraph()
-            tree.add_node(0, t=0, p=1, v=np.atleast_1d(0))
+            tree.add_node(0, t=0, p=1, v=np.atleast_1d(0.))
             k = 1
             names_of_nodes_at_previous_step = [0]
             for t, n_t in enumerate(nodes_at_step):
@@ -101,7 +101,7 @@ class ScenarioTree:
                 for p in names_of_nodes_at_previous_step:
                     for c in range(child_per_par):
                         names_of_nodes_at_t.append(k)
-                        tree.add_node(k, t=t, p=1/n_t, v=np.atleast_1d(0))
+                        tree.add_node(k, t=t, p=1/n_t, v=np.atleast_1d(0.))
                         tree.add_edge(p, k)
                         k += 1
                 names_of_nodes_at_previous_step = np.copy(names_of_nodes_at_t)
-- 
2.43.0


From 64dcab65150f7c0897c59f9a3651ec519e5cebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 066/100] fix: scenarios and values returned with optimised
 trees were not those of the tree

---
 pyforecaster/tree_builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index b7b9fef..3c470d5 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -184,7 +184,7 @@ class NeuralGas(ScenarioTree):
                     tree_scens[t, scen_filt] = jnp.mean(tree_scens[t, scen_filt])
             k += 1
 
-        update_tree_from_scenarios(tree, tree_idxs, tree_scens)
+        tree_vals = update_tree_from_scenarios(tree, tree_idxs, tree_scens)
 
         return tree, tree_scens, tree_idxs, tree_vals
 
@@ -244,6 +244,7 @@ class DiffTree(ScenarioTree):
             k +=1
 
         replace_var(tree, tree_vals)
+        tree_scens = np.vstack([tree_vals[idx] for idx in tree_idxs])
         return tree, tree_scens, tree_idxs, tree_vals
 
 
-- 
2.43.0


From 605e2f9a4323e755b0549c6dc9b633dbc4620597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 067/100] fix: scenarios which all agree at the first steps
 could not be reduced to a tree

---
 pyforecaster/scenred.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index eafde0b..50c486e 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -165,7 +165,8 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
             # update the differential accuracy
             if not Tol[i] == infty:
                 delta_p = delta_p + dp_min
-            delta_rel = delta_p / delta_max
+            # scenarios which all agree up to this step are merged at no cost
+            delta_rel = delta_p / delta_max if delta_max > 0 else 0
 
         if i > 0:
             # Update available scenarios in the previous timestep
-- 
2.43.0


From 99b655035a4646bf27c2373e8eb9d176d0a915f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 068/100] fix: forecasts of ExponentialSmoothing did not use
 the last observation and were compared with those of the next step

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index b03e188..2cac374 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -8,13 +8,13 @@ from pyforecaster.forecasting_models.holtwinters import hankel
 def get_forecasts(model, y_te, x_te, n_step_ahead=24):
   y_hat = np.zeros((len(y_te), n_step_ahead))
   for i in tqdm(range(len(y_te))):
-    y_hat[i,:] = model.forecast(n_step_ahead)
     exog = x_te.iloc[[i]].values if x_te is not None else None
     try:
         model = model.append(y_te.iloc[[i]], exog=exog) # this method UPDATES the model with the last observation
     except:
         print('Error in updating the model')
         model = model.apply(y_te.iloc[[i]], exog=exog)  # this method UPDATES the model with the last observation
+    y_hat[i,:] = model.forecast(n_step_ahead)
   return pd.DataFrame(y_hat, index=y_te.index)
 
 
-- 
2.43.0


From 234cf48d9964faa2bc381ff644f97896ea70de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 069/100] fix: ExponentialSmoothing could not forecast from
 less than three rows

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index 2cac374..feb6c42 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -55,14 +55,15 @@ class ExponentialSmoothing(StatsModelsWrapper):
         super().__init__(model_class, model_pars, target_name, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, n_sa=n_sa, **scengen_kwgs)
 
     def fit(self, x_pd:pd.DataFrame, y:pd.DataFrame=None):
-        x_pd = x_pd.asfreq(pd.infer_freq(x_pd.index))
+        self.freq = pd.infer_freq(x_pd.index)
+        x_pd = x_pd.asfreq(self.freq)
         y_pd = x_pd[[self.target_name]]
         self.model = self.model_class(**self.model_pars, endog=y_pd).fit()
         super().fit(x_pd, y_pd)
         return self
 
     def predict(self, x_pd:pd.DataFrame, **kwargs):
-        x_pd = x_pd.asfreq(pd.infer_freq(x_pd.index))
+        x_pd = x_pd.asfreq(self.freq)
         y = x_pd[self.target_name]
         y_hat = get_forecasts(self.model, y, n_step_ahead=self.n_sa, x_te=None)
         return y_hat
-- 
2.43.0


From 76fb4e2c0cb9edef5a313d5bfb2c101671b19d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 070/100] fix: a missing observation made all quantiles of
 ExponentialSmoothing undefined

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index feb6c42..c96b511 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -37,7 +37,7 @@ class StatsModelsWrapper(ScenarioGenerator):
         # hankelize the target
         hw_target = hankel(y_present[1:], self.n_sa)
         resid = hw_target - preds
-        self.err_distr = np.quantile(resid, self.q_vect, axis=0).T
+        self.err_distr = np.nanquantile(resid, self.q_vect, axis=0).T
         self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa+1)]
 
     def predict(self, x_pd:pd.DataFrame, **kwargs):
-- 
2.43.0


From 75a880bd80c84289f08eb555df4ad56fde2c5e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 071/100] fix: forecasts of ExponentialSmoothing were labelled
 differently from their quantiles

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index c96b511..ef3b701 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -32,13 +32,13 @@ class StatsModelsWrapper(ScenarioGenerator):
         y_present = x_pd[self.target_name].values
 
         # exclude the last n_sa, we need them to create the target
+        self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa+1)]
         preds = self.predict(x_pd)[:-self.n_sa]
 
         # hankelize the target
         hw_target = hankel(y_present[1:], self.n_sa)
         resid = hw_target - preds
         self.err_distr = np.nanquantile(resid, self.q_vect, axis=0).T
-        self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa+1)]
 
     def predict(self, x_pd:pd.DataFrame, **kwargs):
         pass
@@ -66,5 +66,6 @@ class ExponentialSmoothing(StatsModelsWrapper):
         x_pd = x_pd.asfreq(self.freq)
         y = x_pd[self.target_name]
         y_hat = get_forecasts(self.model, y, n_step_ahead=self.n_sa, x_te=None)
+        y_hat.columns = self.target_cols
         return y_hat
 
-- 
2.43.0


From 14a49ca69187ecc7fd13e45fb6913fef6b674c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 072/100] fix: quantile levels and tree nodes given by
 set_params did not reach the scenarios

---
 pyforecaster/forecaster.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 0327c61..f99caf2 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -96,6 +96,13 @@ class ScenarioGenerator(BaseEstimator):
 
     def set_params(self, **kwargs):
         [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
+        if any(k in kwargs for k in ['q_vect', 'nodes_at_step', 'additional_node']):
+            # the scenario generator has its own copy of these
+            scengen = ScenGen(q_vect=self.q_vect, nodes_at_step=self.nodes_at_step,
+                              additional_node=self.additional_node, **self._scengen_kwgs)
+            self.scengen.q_vect = scengen.q_vect
+            self.scengen.additional_node = scengen.additional_node
+            self.scengen.tree.nodes_at_step = scengen.tree.nodes_at_step
 
     def get_params(self, **kwargs):
         return {k: getattr(self, k) for k in signature(self.__class__).parameters.keys() if k in self.__dict__.keys()}
-- 
2.43.0


From 9d3d747a45032ac5402abd95f6ebd8c223634e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 073/100] fix: random Fourier models of normalised targets
 failed, or denormalised them with scaled features

---
 .../forecasting_models/random_fourier_features.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index b303aa5..5cdfe86 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -348,8 +348,8 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         return self
 
     def predict(self, x, **kwargs):
-        x = pd.DataFrame(self.scaler.transform(x), index=x.index)
-        y_hat = RandomFFRegressor.predict(self, x, **kwargs)
+        x_scaled = pd.DataFrame(self.scaler.transform(x), index=x.index)
+        y_hat = RandomFFRegressor.predict(self, x_scaled, **kwargs)
         y_hat = self.anti_transform(x, y_hat)
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
@@ -385,10 +385,10 @@ class AdditiveRFFRegression(ScenarioGenerator):
 
     def predict(self, x, **kwargs):
         """Boosting predict."""
-        x = pd.DataFrame(self.scaler.transform(x), index=x.index)
+        x_scaled = pd.DataFrame(self.scaler.transform(x), index=x.index)
         y_hat = pd.DataFrame(np.zeros((x.shape[0], len(self.models[0].target_cols))), index=x.index, columns=self.target_cols)
         for m in self.models:
-            y_hat += m.predict(x)
+            y_hat += m.predict(x_scaled)
 
         y_hat = self.anti_transform(x, y_hat)
         return y_hat
-- 
2.43.0


From 9d6af84fd4e194acb46ce534e679855b0322c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 074/100] fix: the cross validated copula was tuned on hour
 zero instead of the hour with most observations

---
 pyforecaster/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 6c1e7fa..1af7688 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -39,7 +39,7 @@ class HourlyGaussianCopula(GaussianCopula):
         self.logger.info('estimating gaussian copula, conditional on day-hour')
         if self.cov_est_method == 'glasso_cv':
             # optimize alpha in CV on the hour with most observations only
-            hour_filt = y.index.hour == y.index.hour.value_counts().argmax()
+            hour_filt = y.index.hour == y.index.hour.value_counts().idxmax()
             x_h = y.loc[hour_filt, :]
             glcv = GraphicalLassoCV().fit(x_h)
             alpha_glasso = glcv.alpha_
-- 
2.43.0


From b8a0daa5ac7cabd69014896a704782a3d1b50a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 075/100] fix: trees could not be fitted in advance when the
 training set lacks some hours of the day

---
 pyforecaster/scenarios_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/scenarios_generator.py b/pyforecaster/scenarios_generator.py
index 72790f7..51d8361 100644
--- a/pyforecaster/scenarios_generator.py
+++ b/pyforecaster/scenarios_generator.py
@@ -58,14 +58,17 @@ class ScenGen:
                     filt_h = y.index.hour == h
                     err_distr[h] = np.expand_dims(np.quantile(y.loc[filt_h, :], self.q_vect, axis=0).T, 0)
 
-                for h in tqdm(range(24), 'Fitting HourlyGaussianCopula trees...'):
+                # trees of the hours in the training set; those of a previous fit are discarded
+                self.trees = {}
+                start_tree = None
+                for h in tqdm(err_distr, 'Fitting HourlyGaussianCopula trees...'):
                     #scenarios = self.copula.sample(y_h.iloc[[0], :], n_scen, **copula_kwargs)
                     # find first observation at hour h
                     y_h = y.loc[y.index.hour == h, :].iloc[[0], :]
                     init_obs = 0 if self.additional_node else None
                     scenarios = self.sample_scenarios(y_h, n_scen, err_distr[h], init_obs=init_obs, **copula_kwargs)
-                    start_tree = self.trees[0] if h>0 else None
                     self.trees[h], _, _, _ = self.tree.gen_tree(np.squeeze(scenarios), k_max=self.k_max, start_tree=start_tree, nodes_at_step=self.tree.nodes_at_step)
+                    start_tree = self.trees[h] if start_tree is None else start_tree
             else:
                 raise NotImplementedError('pre-fit currently not available for copulas other than HourlyGaussianCopula')
 
-- 
2.43.0


From a8cabc37be3e9c927191c4f9dfd26b0ef4a233f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 076/100] fix: initial observations given as a series with
 other labels became undefined tree roots

---
 pyforecaster/scenarios_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/scenarios_generator.py b/pyforecaster/scenarios_generator.py
index 51d8361..edbf21a 100644
--- a/pyforecaster/scenarios_generator.py
+++ b/pyforecaster/scenarios_generator.py
@@ -139,6 +139,8 @@ class ScenGen:
             if self.additional_node:
                 if init_obs is None:
                     init_obs = predictions.iloc[:, 0]
+                # a vector with one value per row, whatever its labels
+                init_obs = np.broadcast_to(np.ravel(init_obs), len(predictions))
                 predictions = pd.concat([pd.Series(init_obs, index=predictions.index, name='additional_node'), predictions], axis=1)
 
             if self.parallel_preds and predictions.shape[0] > 1:
-- 
2.43.0


From 69974ee50fe56356cf59f1758915a9e029b73852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 077/100] fix: standard deviations of probabilistic neural
 forecasts were shifted by the mean of the target, or left squared

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 6b5b35e..9a89cf9 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -468,10 +468,13 @@ class NN(ScenarioGenerator):
         x, _ = self.check_inputs(x, None)
         y_hat = self.predict_batch(self.pars, x)
         y_hat = np.array(y_hat)
+        if self.probabilistic:
+            # the network outputs variances
+            y_hat[:, y_hat.shape[1] // 2:] = y_hat[:, y_hat.shape[1] // 2:]**0.5
         if self.normalize_target:
             if self.probabilistic:
                 y_hat[:, :y_hat.shape[1]//2] = self.target_scaler.inverse_transform(y_hat[:, :y_hat.shape[1]//2])
-                y_hat[:, y_hat.shape[1] // 2:] = self.target_scaler.inverse_transform((y_hat[:, y_hat.shape[1] // 2:])**0.5)
+                y_hat[:, y_hat.shape[1] // 2:] *= self.target_scaler.scale_
             else:
                 y_hat = self.target_scaler.inverse_transform(y_hat)
         if self.probabilistic:
-- 
2.43.0


From d49905f5168dd45b201385f299e64838dac837bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 078/100] fix: input convex networks with causal constraints
 could not be trained unless probabilistic

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 7b62528..eaf3305 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -333,7 +333,7 @@ class PICNN(NN):
         if self.causal_df is not None:
             causal_df = (~self.causal_df.astype(bool)).astype(float)
             causal_matrix = np.tile(causal_df.values, 2) if self.probabilistic else causal_df.values
-            self.loss_fn = jitting_wrapper(causal_loss_fn, self.model, causal_matrix=causal_matrix, kind=self.probabilistic_loss_kind) \
+            self.loss_fn = jitting_wrapper(causal_loss_fn, self.model, causal_matrix=causal_matrix) \
                 if not self.probabilistic else jitting_wrapper(probabilistic_causal_loss_fn, self.model, causal_matrix=causal_matrix, kind=self.probabilistic_loss_kind)
         else:
             self.loss_fn = jitting_wrapper(loss_fn, self.predict_batch) if not self.probabilistic else jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution)
-- 
2.43.0


From ed17c7ba4340e2a0c9ec39d30979a15d0a25d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 079/100] fix: input convex networks without inputs to be
 normalised could not be trained

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 11 +++++++----
 .../forecasting_models/neural_models/base_nn.py       |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index eaf3305..54ebc98 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -352,8 +352,9 @@ class PICNN(NN):
     def get_normalized_inputs(self, inputs, target=None):
         inputs = inputs.copy()
         self.to_be_normalized = [c for c in inputs.columns if c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
-        normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
-        inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
+        if self.input_scaler is not None:
+            normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
+            inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
 
         x = inputs[[c for c in inputs.columns if not c in self.optimization_vars]].values
         y = inputs[self.optimization_vars].values
@@ -406,7 +407,8 @@ class PICNN(NN):
 
         inputs.loc[:, self.optimization_vars] = y.ravel()
         inputs.loc[:, [c for c in inputs.columns if c not in  self.optimization_vars]] = x.ravel()
-        inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
+        if self.input_scaler is not None:
+            inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
         target_opt = self.predict(inputs)
 
         y_opt = inputs.loc[:, self.optimization_vars].values.ravel()
@@ -768,7 +770,8 @@ class LatentStructuredPICNN(PICNN):
 
         inputs.loc[:, self.optimization_vars] = ctrl.ravel()
         inputs.loc[:, [c for c in inputs.columns if c not in  self.optimization_vars]] = x.ravel()
-        inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
+        if self.input_scaler is not None:
+            inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
         target_opt = self.predict(inputs)
 
         y_opt = inputs.loc[:, self.optimization_vars].values.ravel()
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 9a89cf9..d464226 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -341,6 +341,7 @@ class NN(ScenarioGenerator):
     def fit(self, inputs, targets, n_epochs=None, savepath_tr_plots=None, stats_step=None, rel_tol=None):
         self.to_be_normalized = [c for c in inputs.columns if
                                  c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
+        self.input_scaler = None
         if len(self.to_be_normalized) > 0:
             self.input_scaler = (StandardScaler(with_mean=self.subtract_mean_when_normalizing)
                                  .set_output(transform='pandas').fit(inputs[self.to_be_normalized]))
-- 
2.43.0


From db7e8dea486af4f43273003d542abc80a3f39bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 080/100] fix: neural networks were not trained at all when the
 training set was smaller than a batch

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index d464226..d8fa570 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -358,7 +358,9 @@ class NN(ScenarioGenerator):
         validation_len = inputs_val_0.shape[0]
 
         self.target_columns = targets.columns
+        # no batch is larger than the training set, nor empty
         batch_size = self.batch_size if self.batch_size is not None else inputs.shape[0] // 10
+        batch_size = int(np.clip(batch_size, 1, training_len))
         num_batches = inputs.shape[0] // batch_size
 
         inputs, targets = self.get_normalized_inputs(inputs, targets)
-- 
2.43.0


From bc3b0fa79b2bedf7ba3331e5bd9a84ee67c38949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 081/100] fix: inverted embeddings lost their time stamps

---
 pyforecaster/forecasting_models/neural_models/INN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 0c3a3b5..d6b5187 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -169,7 +169,7 @@ class CausalInvertibleNN(NN):
         y_np = invert(self.pars, y.values, self.model)
         if self.input_scaler is not None:
             y_np = self.input_scaler.inverse_transform(y_np)
-        return pd.DataFrame(y_np, columns=y.columns)
+        return pd.DataFrame(y_np, index=y.index, columns=y.columns)
 
     def reorder_inputs(self, inputs):
         if self.n_exogenous > 0:
-- 
2.43.0


From 23cbca11cf0458364755603332c12cb78194d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 082/100] fix: inverse of large embeddings was undefined

---
 pyforecaster/forecasting_models/neural_models/layers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/layers.py b/pyforecaster/forecasting_models/neural_models/layers.py
index 14b7e46..bb4e7ea 100644
--- a/pyforecaster/forecasting_models/neural_models/layers.py
+++ b/pyforecaster/forecasting_models/neural_models/layers.py
@@ -60,11 +60,11 @@ def linloglin_inverse(y: jnp.ndarray, k=10) -> jnp.ndarray:
     # Inverse of the left linear part
     left_linear_inv = (y + q) / m
 
-    # Inverse of the left logarithmic part
-    left_log_inv = 1 - jnp.exp(-y)
+    # Inverse of the left logarithmic part. Values outside of it must not overflow
+    left_log_inv = 1 - jnp.exp(jnp.clip(-y, 0, m * k + q))
 
     # Inverse of the right logarithmic part
-    right_log_inv = jnp.exp(y) - 1
+    right_log_inv = jnp.exp(jnp.clip(y, 0, m * k + q)) - 1
 
     # Inverse of the right linear part
     right_linear_inv = (y - q) / m
-- 
2.43.0


From ba3defd68fa4658e128509207a658270c9af7f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 083/100] fix: saved neural forecasters lost their quantile
 levels, error distribution and scenario generator

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index d8fa570..1408a32 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -291,7 +291,8 @@ class NN(ScenarioGenerator):
 
     def get_serializable_properties(self):
         attrs = {}
-        for key, value in self.get_class_properties().items():
+        # what was fitted on top of the network is not among the class properties
+        for key, value in {**self.get_class_properties(), **self.__dict__}.items():
             if key in self._runtime_serialization_excludes():
                 continue
             try:
-- 
2.43.0


From 65c36880fcd1c041a6b01c7777d97237e69da457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 084/100] fix: loaded input convex networks optimised controls
 with the default learning rate

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 54ebc98..b025c1e 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -312,13 +312,15 @@ class PICNN(NN):
                        })
 
         self.n_hidden_y = 2 * len(self.optimization_vars) if augment_ctrl_inputs else len(self.optimization_vars)
-        self.inverter_optimizer = inverter_class(learning_rate=self.inverter_learning_rate)
 
         super().__init__(learning_rate, batch_size, load_path, n_hidden_x, n_out, n_layers, pars, q_vect, val_ratio,
                          nodes_at_step, n_epochs, savepath_tr_plots, stats_step, rel_tol, unnormalized_inputs,
                          normalize_target, stopping_rounds, subtract_mean_when_normalizing, causal_df,
                          probabilistic, probabilistic_loss_kind, **scengen_kwgs)
 
+        # after loading a saved network, if any
+        self.inverter_optimizer = self.inverter_class(learning_rate=self.inverter_learning_rate)
+
 
     def set_arch(self):
         z_max = jnp.array(self.z_max) if self.z_max is not None else self.z_max
-- 
2.43.0


From 4b7e7ba60da17c2f849a6a26ae391dd4718c0ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 085/100] fix: clones of neural forecasters had another
 architecture and training configuration

---
 .../forecasting_models/neural_models/base_nn.py   | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 1408a32..a140f81 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -1,6 +1,7 @@
 import pickle as pk
 
-from inspect import getmro
+from copy import deepcopy
+from inspect import getmro, signature
 from os.path import join
 from typing import Union
 from time import time
@@ -308,9 +309,19 @@ class NN(ScenarioGenerator):
             pk.dump(attrdict, f, protocol=pk.HIGHEST_PROTOCOL)
 
     def set_params(self, **kwargs):
-        [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
+        super().set_params(**kwargs)
         self.set_arch()
 
+    def __sklearn_clone__(self):
+        # arguments which a subclass passes through are not among its parameters, but clones must keep them
+        new = super().__sklearn_clone__()
+        pars = signature(self.__class__).parameters
+        for k in signature(NN).parameters:
+            if k not in pars and k in self.__dict__ and k not in ['pars', 'load_path']:
+                setattr(new, k, deepcopy(getattr(self, k)))
+        new.set_arch()
+        return new
+
     def set_attr(self, attrdict):
         [self.__setattr__(k, v) for k, v in attrdict.items()]
 
-- 
2.43.0


From 75c505a28bb0924236f525b183a19c73ee219e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 086/100] fix: probabilistic input convex networks could not be
 trained when the latent size differs from the number of targets

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index b025c1e..925c925 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -148,11 +148,13 @@ class PICNN_module(nn.Module):
             u = x.copy()
             sigma_len = 1 if self.structured else self.features_out
             sigma = jnp.zeros(sigma_len)  # Initialize z_0 to be the same shape as y
+            # one gate for each element of sigma, or a common one
+            gates_len = 1 if self.features_latent == 1 else sigma_len
             for i in range(self.num_layers):
                 prediction_layer = i == self.num_layers - 1
                 u, sigma = PICNNLayer(features_x=self.features_x, features_y=self.features_y,
                                   features_out=sigma_len,
-                                  features_latent=self.features_latent,
+                                  features_latent=gates_len,
                                       prediction_layer=prediction_layer, activation=self.activation,
                                   rec_activation=self.rec_activation, init_type=self.init_type,
                                   augment_ctrl_inputs=self.augment_ctrl_inputs,
-- 
2.43.0


From acde2627741fd205a4dd4d60c8dee22aab266df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 087/100] fix: quasi end-to-end invertible networks with a
 single target learned undefined weights

---
 pyforecaster/forecasting_models/neural_models/INN.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index d6b5187..817cea7 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -31,7 +31,8 @@ def quasi_end_to_end_loss_fn(params, inputs, targets, model=None, embedder=None,
 
     # make them match
     err = e_target - e_target_hat
-    persistent_error = e_target - jnp.roll(e_target, 1, axis=1)
+    # a single target has no persistence to compare with
+    persistent_error = e_target - jnp.roll(e_target, 1, axis=1) if targets.shape[1] > 1 else e_target
     skill_score = jnp.mean(err**2) / jnp.mean(persistent_error**2)
     return skill_score
 
-- 
2.43.0


From 698f7d277f67275269e63c71b716b3b1e4d6d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 088/100] fix: neural forecasts were not brought back to the
 scale of a target normalised by the formatter

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index a140f81..edcde63 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -496,11 +496,13 @@ class NN(ScenarioGenerator):
             preds = pd.DataFrame(y_hat[:, :y_hat.shape[1] // 2], index=inputs.index, columns=self.target_columns)
             sigmas = pd.DataFrame(y_hat[:, y_hat.shape[1] // 2:], index=inputs.index, columns=self.target_columns)
             if return_sigma:
-                return preds, sigmas
+                one_sigma_up = self.anti_transform(inputs, preds + sigmas)
+                preds = self.anti_transform(inputs, preds)
+                return preds, one_sigma_up - preds
             else:
-                return preds
+                return self.anti_transform(inputs, preds)
         else:
-            return pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
+            return self.anti_transform(inputs, pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns))
 
     def predict_quantiles(self, inputs, normalize=True, **kwargs):
         inputs, _ = self.check_inputs(inputs, None)
-- 
2.43.0


From 4cf1d62bce5cb2b895df7170011c58d836cbb798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 089/100] fix: the width of the predictor of invertible
 networks was ignored

---
 pyforecaster/forecasting_models/neural_models/INN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 817cea7..9ac4e64 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -131,7 +131,7 @@ class CausalInvertibleNN(NN):
         self.set_attr({"names_exogenous": names_exogenous,
                        "end_to_end": end_to_end,
                        "n_prediction_layers": n_prediction_layers,
-                       "num_embedding_layers": n_hidden_y,
+                       "n_hidden_y": n_hidden_y,
                        "n_exogenous":len(names_exogenous) if names_exogenous is not None else 0,
                        "scaling_factor": scaling_factor})
         assert n_in - self.n_exogenous >= n_out, ('the history length must be greater than the forecast horizon to '
-- 
2.43.0


From 125f47baef71dc95af641a96682bd5676c395453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 090/100] fix: recursively stable networks could not be trained
 with augmented controls

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 925c925..c54dcf3 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -536,7 +536,8 @@ class RecStablePICNN(PICNN):
         self.optimizer = optax.adamw(learning_rate=self.learning_rate)
         self.model = PICNN_module(num_layers=self.n_layers, features_x=self.n_hidden_x, features_y=self.n_hidden_y,
                               features_out=self.n_out, features_latent=self.n_latent, activation=nn.relu,
-                              init_type=self.init_type, probabilistic=self.probabilistic,z_min=z_min,
+                              init_type=self.init_type, augment_ctrl_inputs=self.augment_ctrl_inputs,
+                              probabilistic=self.probabilistic,z_min=z_min,
                               z_max=z_max)
         self.predict_batch = vmap(jitting_wrapper(predict_batch_picnn, self.model), in_axes=(None, 0))
         self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution) if self.probabilistic else (
-- 
2.43.0


From 857bb372e77c1c03a43e2a65a62e51cd790d5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 091/100] fix: input convex networks kept the number of
 controls and the optimizer of the controls when their parameters were set

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index c54dcf3..5540c70 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -324,6 +324,12 @@ class PICNN(NN):
         self.inverter_optimizer = self.inverter_class(learning_rate=self.inverter_learning_rate)
 
 
+    def set_params(self, **kwargs):
+        super().set_params(**kwargs)
+        self.n_hidden_y = 2 * len(self.optimization_vars) if self.augment_ctrl_inputs else len(self.optimization_vars)
+        self.inverter_optimizer = self.inverter_class(learning_rate=self.inverter_learning_rate)
+        self.set_arch()
+
     def set_arch(self):
         z_max = jnp.array(self.z_max) if self.z_max is not None else self.z_max
         z_min = jnp.array(self.z_min) if self.z_min is not None else self.z_min
-- 
2.43.0


From eb7ea9e99d82af5f52898dd9f3bfecd08a3b2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 092/100] fix: a saved network could not be loaded into one of
 another architecture

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index edcde63..5d0f70b 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -329,6 +329,7 @@ class NN(ScenarioGenerator):
         with open(save_path, 'rb') as f:
             attrdict = pk.load(f)
         self.set_attr(attrdict)
+        self.set_arch()
 
     @staticmethod
     def init_arch(nn_init, n_inputs_x=1):
-- 
2.43.0


From 6b12ea195c95c0ef99a29a391288aed2521f7226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 093/100] fix: bootstrap evaluates a callable statistic on each
 sample, not on its values

---
 pyforecaster/stat_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/stat_utils.py b/pyforecaster/stat_utils.py
index 1b77336..d498165 100644
--- a/pyforecaster/stat_utils.py
+++ b/pyforecaster/stat_utils.py
@@ -32,7 +32,8 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     for i, n_s in enumerate(sample_at):
         stats = []
         for s in samples[:n_s]:
-            stats.append(series.loc[s].agg(stat_fun))
+            # agg would try a function on each value before trying it on the sample
+            stats.append(stat_fun(series.loc[s]) if callable(stat_fun) else series.loc[s].agg(stat_fun))
 
         if save_plots_dir:
             qqplot((stats-np.mean(stats))/np.std(stats), ax, label=n_s, c=colors(i))
-- 
2.43.0


From ff0dc66d186edff82dcfa7e75a0babf2eebd8304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 094/100] fix: bootstrap draws positions, labels of the series
 may repeat

---
 pyforecaster/stat_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/stat_utils.py b/pyforecaster/stat_utils.py
index d498165..d1c19e4 100644
--- a/pyforecaster/stat_utils.py
+++ b/pyforecaster/stat_utils.py
@@ -19,7 +19,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     assert isinstance(series, pd.Series), 'series must be a pd.Series instance, you passed {}'.format(type(series))
 
     n = len(series)
-    samples = np.random.choice(series.index, (n_sampling, n), replace=True)
+    samples = np.random.choice(n, (n_sampling, n), replace=True)
 
     sample_at = np.arange(100, n_sampling, 500).astype(int)
     history = pd.DataFrame({})
@@ -33,7 +33,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
         stats = []
         for s in samples[:n_s]:
             # agg would try a function on each value before trying it on the sample
-            stats.append(stat_fun(series.loc[s]) if callable(stat_fun) else series.loc[s].agg(stat_fun))
+            stats.append(stat_fun(series.iloc[s]) if callable(stat_fun) else series.iloc[s].agg(stat_fun))
 
         if save_plots_dir:
             qqplot((stats-np.mean(stats))/np.std(stats), ax, label=n_s, c=colors(i))
-- 
2.43.0


From 05e30e4267d4422c442d74445b98664d6df3e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 095/100] fix: bootstrap summarises all the samples which were
 asked

---
 pyforecaster/stat_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/stat_utils.py b/pyforecaster/stat_utils.py
index d1c19e4..f8305d7 100644
--- a/pyforecaster/stat_utils.py
+++ b/pyforecaster/stat_utils.py
@@ -21,7 +21,8 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     n = len(series)
     samples = np.random.choice(n, (n_sampling, n), replace=True)
 
-    sample_at = np.arange(100, n_sampling, 500).astype(int)
+    # intermediate numbers of samples, and all of them
+    sample_at = np.append(np.arange(100, n_sampling, 500), n_sampling).astype(int)
     history = pd.DataFrame({})
     summary = pd.DataFrame({})
 
-- 
2.43.0


From 1057e6bb209db755e7980e10d9724b99ab0ad846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 096/100] fix: pair quantiles and targets by label in
 hierarchical KPIs

---
 pyforecaster/reconciliation/reconciliation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 9270cd3..b56964f 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -377,7 +377,8 @@ class HierarchicalReconciliation:
         target_names = hat.columns.get_level_values(1).unique()
         for s in target_names:
             hat_s = convert_multiindex_pandas_to_tensor(hat.loc[:, (slice(None), [s], slice(None))].droplevel(1, 1))
-            y_mat_s = y_mat.loc[:, (slice(None), [s])].droplevel(1, 1)
+            # a tensor has no labels: rows and series of the target must be in the order of the forecasts
+            y_mat_s = y_mat.loc[hat.index, [(n, s) for n in hat.columns.get_level_values(0).unique()]].droplevel(1, 1)
             kpi[s] = metric(hat_s, y_mat_s, **metric_kwargs).T
             if kpi[s].index.nlevels == 2:
                 kpi[s] = kpi[s].unstack(level=0)
-- 
2.43.0


From e8482f247c60d9497ac8687ae150a7a5370a02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 097/100] fix: scorers reduce over the horizon also when there
 are as many rows as steps

---
 pyforecaster/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index d89d621..cd7cfe3 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -5,6 +5,9 @@ from pandas.api.types import is_datetime64_any_dtype, is_float_dtype
 from pyforecaster.forecaster import ScenarioGenerator
 
 def chose_axis(x, agg_index):
+    # with as many rows as steps, a series labelled with the steps groups the steps
+    if isinstance(agg_index, pd.Series) and x.shape[0] == x.shape[1] and agg_index.index.equals(x.columns):
+        return 1
     return 0 if len(x) == len(agg_index) else 1
 
 
@@ -132,7 +135,7 @@ def make_scorer(metric):
                 y_hat.columns = y.columns
         # default behaviour is to reduce metric over forecasting horizon.
         # If just one step ahead is forecasted, metric is reduced on samples
-        agg_index = np.zeros(len(y)) if len(y.shape)<2 else np.zeros(y.shape[1])
+        agg_index = np.zeros(len(y)) if len(y.shape)<2 else pd.Series(np.zeros(y.shape[1]), index=y.columns)
         score = metric(y_hat, y, agg_index=agg_index, **kwargs)
         return np.mean(score.mean()) if len(score.shape)>1 else score.mean()
     return scorer
-- 
2.43.0


From 0a623298af3f79c1785216304c261ff7bb64a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 098/100] fix: shrunk copula has unit variances, so that
 sampled ranks are uniform

---
 pyforecaster/copula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 1af7688..f4ac412 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -52,7 +52,8 @@ class HourlyGaussianCopula(GaussianCopula):
                 est_cov = np.corrcoef(x_h.T) + np.eye(self.dim)*1e-6
             elif self.cov_est_method == 'shrunk':
                 sh = ShrunkCovariance().fit(x_h)
-                std = np.std(x_h.values, axis=0)
+                # the shrinkage changes the variances as well: ranks are uniform only with the ones of the estimate
+                std = np.sqrt(np.diag(sh.covariance_))
                 est_cov = sh.covariance_ / np.outer(std, std)
             elif self.cov_est_method in ['glasso', 'glasso_cv']:
                 self.logger.info('alpha glasso: {}'.format(alpha_glasso))
-- 
2.43.0


From aed8b95906ea633d8ff9eb4470d73a4e7b5eca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 099/100] fix: quantile forecasts of networks with reshaped
 inputs (LSTMNN) failed

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 5d0f70b..fd0ff81 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -506,12 +506,11 @@ class NN(ScenarioGenerator):
             return self.anti_transform(inputs, pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns))
 
     def predict_quantiles(self, inputs, normalize=True, **kwargs):
-        inputs, _ = self.check_inputs(inputs, None)
         if self.probabilistic:
             if normalize:
                 mu_hat, sigma_hat = self.predict(inputs, return_sigma=True)
             else:
-                x = inputs
+                x, _ = self.check_inputs(inputs, None)
                 y_hat = self.predict_batch(self.pars, x)
                 y_hat = np.array(y_hat)
                 mu_hat = y_hat[:, :y_hat.shape[1]//2]
-- 
2.43.0


From 341474773fa5ffd60f69f13a65a298635233bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 100/100] fix: random Fourier models ignored parameters changed
 after construction, and kept the matrices of a previous fit

---
 .../random_fourier_features.py                | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 5cdfe86..5456531 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -208,6 +208,7 @@ class Base:
         self.mat = get_matrix_generator(rand_type, std_kernel, dim_kernel)
         self.W   = W
         self.b   = b
+        self.W_, self.b_ = W, b  # matrices in use: the ones given, or drawn when fitting
 
     def conv(self, x, index=None):
         """
@@ -224,8 +225,8 @@ class Base:
             Also, computation of `ts` is equivarent with ts = X @ W, however, for reducing memory
             consumption, split X to smaller matrices and concatenate after multiplication wit W.
         """
-        W = self.W if index is None else self.W[index]
-        b = self.b if index is None else self.b[index]
+        W = self.W_ if index is None else self.W_[index]
+        b = self.b_ if index is None else self.b_[index]
         return pd.DataFrame(np.cos(x.values @ W + b), index=x.index)
 
     def set_weight(self, dim_in):
@@ -240,14 +241,14 @@ class Base:
             a list/tuple of integers, then generate multiple random matrixes.
         """
         # Generate matrix W.
-        if   self.W is not None         : pass
-        elif hasattr(dim_in, "__iter__"): self.W = tuple([self.mat(d) for d in dim_in])
-        else                            : self.W = self.mat(dim_in)
+        if   self.W_ is not None        : pass
+        elif hasattr(dim_in, "__iter__"): self.W_ = tuple([self.mat(d) for d in dim_in])
+        else                            : self.W_ = self.mat(dim_in)
 
         # Generate vector b.
-        if   self.b is not None         : pass
-        elif hasattr(dim_in, "__iter__"): self.b = tuple([np.random.uniform(0, 2*np.pi, size=self.W.shape[1]) for _ in dim_in])
-        else                            : self.b = np.random.uniform(0, 2*np.pi, size=self.W.shape[1])
+        if   self.b_ is not None        : pass
+        elif hasattr(dim_in, "__iter__"): self.b_ = tuple([np.random.uniform(0, 2*np.pi, size=self.W_.shape[1]) for _ in dim_in])
+        else                            : self.b_ = np.random.uniform(0, 2*np.pi, size=self.W_.shape[1])
 
 
 
@@ -287,6 +288,7 @@ class RandomFFRegressor(Base):
         Returns:
             (rfflearn.cpu.Regression): Fitted estimator.
         """
+        self.W_, self.b_ = self.W, self.b
         self.set_weight(x.shape[1])
         self.reg.fit(self.conv(x), y, **args)
         self.target_cols = y.columns
@@ -343,6 +345,8 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
+        # parameters could have been changed since the regressor was built
+        RandomFFRegressor.__init__(self, "rff", self.base_model, self.dim_kernel, self.std_kernel, self.W, self.b)
         RandomFFRegressor.fit(self, x, y, **args)
         ScenarioGenerator.fit(self, x_val, y_val)
         return self
@@ -375,6 +379,9 @@ class AdditiveRFFRegression(ScenarioGenerator):
         self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
+        # parameters could have been changed since the regressors were built
+        self.models = [RandomFFRegressor("rff", self.base_model, self.dim_kernel, self.std_kernel, self.W, self.b)
+                       for _ in range(self.n_models)]
         err = y.copy()
         for m in self.models:
             m.fit(x, err, **args)
-- 
2.43.0

