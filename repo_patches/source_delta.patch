From 998e6da8b7ae0a35eae3a986c36d84ffd401161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 01/21] fix: PSAR clamps by row position, not by index label

One of the four clamps wrote self._psar[i], a label access: with an integer
index other than 0..n-1 (for instance after dropna) it changed another row or
appended a new one. Write through iloc like the other three.
---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 553afad..8cd8623 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1027,7 +1027,7 @@ class PSARIndicator(IndicatorMixin):
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
-                        self._psar[i] = high2
+                        self._psar.iloc[i] = high2
                     elif high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
-- 
2.43.0


From 6af3397aea999354a1deff29776581be7ddea0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 02/21] fix: KAMA on integer prices

The efficiency ratio was written into a buffer of the dtype of close, so an
integer close column gave a ratio that was truncated or garbage.
---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 69a4cda..c535ba1 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -322,7 +322,7 @@ class KAMAIndicator(IndicatorMixin):
         er_num = abs(close_values - np.roll(close_values, self._window))
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
-            er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
+            er_num, er_den, out=np.zeros(len(er_num)), where=er_den != 0
         )
 
         smoothing_constant = (
-- 
2.43.0


From 3d5ebf6ea045b3246d6538797167e0021377ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 03/21] fix: KAMA look-ahead in the first window rows

np.roll wraps around, so with fillna=True the first rows compared against the
last closes of the series. Measure the change since the first close while the
window is incomplete.
---
 ta/momentum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index c535ba1..008ce66 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -316,10 +316,13 @@ class KAMAIndicator(IndicatorMixin):
 
     def _run(self):
         close_values = self._close.values
-        vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
+        first_close = self._close.iloc[0]
+        vol = abs(self._close - self._close.shift(1, fill_value=first_close))
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window))
+        er_num = abs(
+            self._close - self._close.shift(self._window, fill_value=first_close)
+        ).values
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros(len(er_num)), where=er_den != 0
-- 
2.43.0


From 341f28e9ad4e0e39bfcfa83252befd69a170ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 04/21] fix: ATR seeds from the first rows by position

true_range[0:window] slices by label on a float index, which seeded the
average with another set of rows.
---
 ta/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 3bbf57e..ff82287 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,7 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range[0 : self._window].mean()
+        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From 0d42169addffb9183749d6e48051b94871a9fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 05/21] fix: ATR on a history shorter than its window

It raised IndexError; every row of such a history is in the warm-up, which
this indicator reports as 0.
---
 ta/volatility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index ff82287..dbcbd18 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,8 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
+        if len(atr) >= self._window:
+            atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From c2e77b9aef2ff1796f336aef3893fd13691b6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 06/21] fix: PSAR keeps its values in float64

The SAR was stored in a copy of close: an integer column had to be upcast on
the fly (deprecated, an error for nullable integers) and float32 lost digits
of the recursion.
---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cd8623..2dd7808 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -974,7 +974,7 @@ class PSARIndicator(IndicatorMixin):
         up_trend_high = self._high.iloc[0]
         down_trend_low = self._low.iloc[0]
 
-        self._psar = self._close.copy()
+        self._psar = self._close.astype("float64")
         self._psar_up = pd.Series(index=self._psar.index, dtype="float64")
         self._psar_down = pd.Series(index=self._psar.index, dtype="float64")
 
-- 
2.43.0


From 0db750d8c5d044891889083252bf6ca110ab84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:12 +0000
Subject: [PATCH 07/21] fix: ADX on a history shorter than twice its window

The constructor or adx() raised ValueError/IndexError; all rows of such a
history are in the warm-up, which this indicator reports as 0.
---
 ta/trend.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 2dd7808..65eed02 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -726,8 +726,10 @@ class ADXIndicator(IndicatorMixin):
 
         diff_directional_movement = pdm - pdn
 
+        n_smoothed = max(len(self._close) - (self._window - 1), 1)
+
         self._trs_initial = np.zeros(self._window - 1)
-        self._trs = np.zeros(len(self._close) - (self._window - 1))
+        self._trs = np.zeros(n_smoothed)
         self._trs[0] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
@@ -744,7 +746,7 @@ class ADXIndicator(IndicatorMixin):
         pos = abs(((diff_up > diff_down) & (diff_up > 0)) * diff_up)
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
-        self._dip = np.zeros(len(self._close) - (self._window - 1))
+        self._dip = np.zeros(n_smoothed)
         self._dip[0] = pos.dropna().iloc[0 : self._window].sum()
 
         pos = pos.reset_index(drop=True)
@@ -756,7 +758,7 @@ class ADXIndicator(IndicatorMixin):
                 + pos[self._window + i]
             )
 
-        self._din = np.zeros(len(self._close) - (self._window - 1))
+        self._din = np.zeros(n_smoothed)
         self._din[0] = neg.dropna().iloc[0 : self._window].sum()
 
         neg = neg.reset_index(drop=True)
@@ -804,7 +806,8 @@ class ADXIndicator(IndicatorMixin):
                 directional_index[idx] = 0
 
         adx_series = np.zeros(len(self._trs))
-        adx_series[self._window] = directional_index[0 : self._window].mean()
+        if len(adx_series) > self._window:
+            adx_series[self._window] = directional_index[0 : self._window].mean()
 
         for i in range(self._window + 1, len(adx_series)):
             adx_series[i] = (
@@ -812,6 +815,7 @@ class ADXIndicator(IndicatorMixin):
             ) / float(self._window)
 
         adx_series = np.concatenate((self._trs_initial, adx_series), axis=0)
+        adx_series = adx_series[: len(self._close)]
         adx_series = pd.Series(data=adx_series, index=self._close.index)
         adx_series = self._check_fillna(adx_series, value=20)
 
-- 
2.43.0


From 40abf3a037c7212d700f9576e8e30c4624e0bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 08/21] fix: Donchian channel fills after applying its offset

With fillna=True and an offset the gap left by the shift was never filled.
---
 ta/volatility.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index dbcbd18..bb80bcd 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -377,9 +377,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        hband = self._check_fillna(self._hband, value=-1)
+        hband = self._hband
         if self._offset != 0:
             hband = hband.shift(self._offset)
+        hband = self._check_fillna(hband, value=-1)
         return pd.Series(hband, name="dchband")
 
     def donchian_channel_lband(self) -> pd.Series:
@@ -388,9 +389,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        lband = self._check_fillna(self._lband, value=-1)
+        lband = self._lband
         if self._offset != 0:
             lband = lband.shift(self._offset)
+        lband = self._check_fillna(lband, value=-1)
         return pd.Series(lband, name="dclband")
 
     def donchian_channel_mband(self) -> pd.Series:
@@ -400,9 +402,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         mband = ((self._hband - self._lband) / 2.0) + self._lband
-        mband = self._check_fillna(mband, value=-1)
         if self._offset != 0:
             mband = mband.shift(self._offset)
+        mband = self._check_fillna(mband, value=-1)
         return pd.Series(mband, name="dcmband")
 
     def donchian_channel_wband(self) -> pd.Series:
@@ -413,9 +415,9 @@ class DonchianChannel(IndicatorMixin):
         """
         mavg = self._close.rolling(self._window, min_periods=self._min_periods).mean()
         wband = ((self._hband - self._lband) / mavg) * 100
-        wband = self._check_fillna(wband, value=0)
         if self._offset != 0:
             wband = wband.shift(self._offset)
+        wband = self._check_fillna(wband, value=0)
         return pd.Series(wband, name="dcwband")
 
     def donchian_channel_pband(self) -> pd.Series:
@@ -425,9 +427,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         pband = (self._close - self._lband) / (self._hband - self._lband)
-        pband = self._check_fillna(pband, value=0)
         if self._offset != 0:
             pband = pband.shift(self._offset)
+        pband = self._check_fillna(pband, value=0)
         return pd.Series(pband, name="dcpband")
 
 
-- 
2.43.0


From 94043dfdc793238c5a2ab5fba206de13b6a75ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 09/21] fix: KST look-ahead in the warm-up

The first roc rows were compared with the mean of the whole close column,
future rows included. They have no rate of change yet: leave them undefined.
---
 ta/trend.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 65eed02..cc5a0a9 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -495,44 +495,32 @@ class KSTIndicator(IndicatorMixin):
         min_periods_n4 = 0 if self._fillna else self._window4
         rocma1 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r1, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r1, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r1))
+                / self._close.shift(self._r1)
             )
             .rolling(self._window1, min_periods=min_periods_n1)
             .mean()
         )
         rocma2 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r2, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r2, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r2))
+                / self._close.shift(self._r2)
             )
             .rolling(self._window2, min_periods=min_periods_n2)
             .mean()
         )
         rocma3 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r3, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r3, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r3))
+                / self._close.shift(self._r3)
             )
             .rolling(self._window3, min_periods=min_periods_n3)
             .mean()
         )
         rocma4 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r4, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r4, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r4))
+                / self._close.shift(self._r4)
             )
             .rolling(self._window4, min_periods=min_periods_n4)
             .mean()
-- 
2.43.0


From 719dc1bcd196af1c71af247e946a0165126126a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 10/21] fix: DPO look-ahead in the warm-up

The first rows used the mean of the whole close column, future rows included,
as the displaced price.
---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index cc5a0a9..f29e766 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -584,9 +584,7 @@ class DPOIndicator(IndicatorMixin):
     def _run(self):
         min_periods = 0 if self._fillna else self._window
         self._dpo = (
-            self._close.shift(
-                int((0.5 * self._window) + 1), fill_value=self._close.mean()
-            )
+            self._close.shift(int((0.5 * self._window) + 1))
             - self._close.rolling(self._window, min_periods=min_periods).mean()
         )
 
-- 
2.43.0


From fc5e341fda23f56e639812030938864bff3386b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 11/21] fix: TRIX look-ahead in the first row

It was compared with the mean of the whole smoothed series, future rows
included.
---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index f29e766..50d4f7e 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -270,9 +270,7 @@ class TRIXIndicator(IndicatorMixin):
         ema1 = _ema(self._close, self._window, self._fillna)
         ema2 = _ema(ema1, self._window, self._fillna)
         ema3 = _ema(ema2, self._window, self._fillna)
-        self._trix = (ema3 - ema3.shift(1, fill_value=ema3.mean())) / ema3.shift(
-            1, fill_value=ema3.mean()
-        )
+        self._trix = (ema3 - ema3.shift(1)) / ema3.shift(1)
         self._trix *= 100
 
     def trix(self) -> pd.Series:
-- 
2.43.0


From 992204fe3864fc2d35b9c1af54959278cf664f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 12/21] fix: Vortex look-ahead in the first row

The true range of the first row used the mean of the whole close column,
future rows included, as the previous close. Without a previous close it is
high - low, as in ATR.
---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 50d4f7e..9fa292e 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -881,7 +881,7 @@ class VortexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_shift = self._close.shift(1, fill_value=self._close.mean())
+        close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         min_periods = 0 if self._fillna else self._window
         trn = true_range.rolling(self._window, min_periods=min_periods).sum()
-- 
2.43.0


From aa81f73850611f9553a4be76b1566b76ed56f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:36 +0000
Subject: [PATCH 13/21] fix: visual Ichimoku look-ahead in the first rows

The rows before the displaced spans begin were filled with the mean of the
whole span, future rows included.
---
 ta/trend.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 9fa292e..d497ce2 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -408,11 +408,7 @@ class IchimokuIndicator(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         spana = 0.5 * (self._conv + self._base)
-        spana = (
-            spana.shift(self._window2, fill_value=spana.mean())
-            if self._visual
-            else spana
-        )
+        spana = spana.shift(self._window2) if self._visual else spana
         spana = self._check_fillna(spana, value=-1)
         return pd.Series(spana, name=f"ichimoku_a_{self._window1}_{self._window2}")
 
@@ -426,11 +422,7 @@ class IchimokuIndicator(IndicatorMixin):
             self._high.rolling(self._window3, min_periods=0).max()
             + self._low.rolling(self._window3, min_periods=0).min()
         )
-        spanb = (
-            spanb.shift(self._window2, fill_value=spanb.mean())
-            if self._visual
-            else spanb
-        )
+        spanb = spanb.shift(self._window2) if self._visual else spanb
         spanb = self._check_fillna(spanb, value=-1)
         return pd.Series(spanb, name=f"ichimoku_b_{self._window1}_{self._window2}")
 
-- 
2.43.0


From eabec32bdb21a579f0c13104dff8ff4a3c204242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 14/21] fix: min_periods of Ichimoku span B, KST signal and
 Keltner bands

With fillna=False these reported values from windows that were not complete
yet, unlike the other lines of the same indicators.
---
 ta/trend.py      | 10 +++++++---
 ta/volatility.py |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index d497ce2..8e8e5ff 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -418,9 +418,10 @@ class IchimokuIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
+        min_periods_n3 = 0 if self._fillna else self._window3
         spanb = 0.5 * (
-            self._high.rolling(self._window3, min_periods=0).max()
-            + self._low.rolling(self._window3, min_periods=0).min()
+            self._high.rolling(self._window3, min_periods=min_periods_n3).max()
+            + self._low.rolling(self._window3, min_periods=min_periods_n3).min()
         )
         spanb = spanb.shift(self._window2) if self._visual else spanb
         spanb = self._check_fillna(spanb, value=-1)
@@ -516,7 +517,10 @@ class KSTIndicator(IndicatorMixin):
             .mean()
         )
         self._kst = 100 * (rocma1 + 2 * rocma2 + 3 * rocma3 + 4 * rocma4)
-        self._kst_sig = self._kst.rolling(self._nsig, min_periods=0).mean()
+        min_periods_sig = 0 if self._fillna else self._nsig
+        self._kst_sig = self._kst.rolling(
+            self._nsig, min_periods=min_periods_sig
+        ).mean()
 
     def kst(self) -> pd.Series:
         """Know Sure Thing (KST)
diff --git a/ta/volatility.py b/ta/volatility.py
index bb80bcd..4c98f8d 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -234,12 +234,12 @@ class KeltnerChannel(IndicatorMixin):
             )
             self._tp_high = (
                 (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
             self._tp_low = (
                 (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
         else:
-- 
2.43.0


From abf44f1d8aad9419d611d9f2e184049453c84e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 15/21] fix: Aroon counts the rows since the extreme in
 incomplete windows

With fillna=True the position inside a shorter first window was taken as the
position inside a full one: a new high in the third row read 8 instead of 100.
---
 ta/trend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8e8e5ff..e3e7653 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -44,12 +44,14 @@ class AroonIndicator(IndicatorMixin):
 
         rolling_high = self._high.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_up = rolling_high.apply(
-            lambda x: float(np.argmax(x)) / self._window * 100, raw=True
+            lambda x: float(self._window + 1 - len(x) + np.argmax(x)) / self._window * 100,
+            raw=True,
         )
 
         rolling_low = self._low.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_down = rolling_low.apply(
-            lambda x: float(np.argmin(x)) / self._window * 100, raw=True
+            lambda x: float(self._window + 1 - len(x) + np.argmin(x)) / self._window * 100,
+            raw=True,
         )
 
     def aroon_up(self) -> pd.Series:
-- 
2.43.0


From 98643a42f27b9dccf3de209cf357482fb9948c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 16/21] fix: OBV on an unsigned volume column

Negating an unsigned volume wraps around.
---
 ta/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volume.py b/ta/volume.py
index eabf4d2..2bb43fb 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -83,8 +83,8 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        obv = np.where(self._close < self._close.shift(1), -self._volume, self._volume)
-        self._obv = pd.Series(obv, index=self._close.index).cumsum()
+        direction = np.where(self._close < self._close.shift(1), -1, 1)
+        self._obv = (self._volume * direction).cumsum()
 
     def on_balance_volume(self) -> pd.Series:
         """On-balance volume (OBV)
-- 
2.43.0


From 4a9b27d32947c3bccaafc70ef1b86f0b6d871bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 17/21] fix: Ease of Movement on a narrow integer volume column

2 * volume was computed in the column's own integer type and wrapped, so an
int32 volume above 2**30 gave a wrong sign or a division by zero.
---
 ta/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index 2bb43fb..6c3eead 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -229,7 +229,7 @@ class EaseOfMovementIndicator(IndicatorMixin):
         self._emv = (
             (self._high.diff(1) + self._low.diff(1))
             * (self._high - self._low)
-            / (2 * self._volume)
+            / (2.0 * self._volume)
         )
         self._emv *= 100000000
 
-- 
2.43.0


From 80906aaa356c6102e9a31998502c943a9f458df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 18/21] fix: visual Ichimoku fill on a history no longer than
 window2

With fillna=True and at most window2 rows nothing was left to back-fill from
and the displaced spans stayed undefined.
---
 ta/trend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index e3e7653..e2a45aa 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -410,7 +410,9 @@ class IchimokuIndicator(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         spana = 0.5 * (self._conv + self._base)
-        spana = spana.shift(self._window2) if self._visual else spana
+        if self._visual:
+            first = spana.iloc[0] if self._fillna else np.nan
+            spana = spana.shift(self._window2, fill_value=first)
         spana = self._check_fillna(spana, value=-1)
         return pd.Series(spana, name=f"ichimoku_a_{self._window1}_{self._window2}")
 
@@ -425,7 +427,9 @@ class IchimokuIndicator(IndicatorMixin):
             self._high.rolling(self._window3, min_periods=min_periods_n3).max()
             + self._low.rolling(self._window3, min_periods=min_periods_n3).min()
         )
-        spanb = spanb.shift(self._window2) if self._visual else spanb
+        if self._visual:
+            first = spanb.iloc[0] if self._fillna else np.nan
+            spanb = spanb.shift(self._window2, fill_value=first)
         spanb = self._check_fillna(spanb, value=-1)
         return pd.Series(spanb, name=f"ichimoku_b_{self._window1}_{self._window2}")
 
-- 
2.43.0


From 6bfb1e9454c74a8f3b7f811586b7e0aed3106a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 19/21] fix: PSAR stays outside both of the two preceding bars

The clamp looked at the earlier bar first and ignored the later one when the
earlier already limited the SAR, so a rising SAR could end up above the
previous bar's low (a falling one below the previous high). The cited
definition uses the lowest of the two lows (highest of the two highs).
---
 ta/trend.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index e2a45aa..b198151 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -993,10 +993,7 @@ class PSARIndicator(IndicatorMixin):
 
                     low1 = self._low.iloc[i - 1]
                     low2 = self._low.iloc[i - 2]
-                    if low2 < self._psar.iloc[i]:
-                        self._psar.iloc[i] = low2
-                    elif low1 < self._psar.iloc[i]:
-                        self._psar.iloc[i] = low1
+                    self._psar.iloc[i] = min(self._psar.iloc[i], low1, low2)
             else:
                 self._psar.iloc[i] = self._psar.iloc[i - 1] - (
                     acceleration_factor * (self._psar.iloc[i - 1] - down_trend_low)
@@ -1016,10 +1013,7 @@ class PSARIndicator(IndicatorMixin):
 
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
-                    if high2 > self._psar.iloc[i]:
-                        self._psar.iloc[i] = high2
-                    elif high1 > self._psar.iloc[i]:
-                        self._psar.iloc[i] = high1
+                    self._psar.iloc[i] = max(self._psar.iloc[i], high1, high2)
 
             up_trend = up_trend != reversal  # XOR
 
-- 
2.43.0


From bfff38a906ebd6915872959569b506405f31b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 20/21] fix: dropna keeps the values and types of the rows it
 keeps and accepts durations and repeated column labels

---
 ta/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ta/utils.py b/ta/utils.py
index 9f93bab..201a6ce 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -48,11 +48,9 @@ class IndicatorMixin:
 
 def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
-    df = df.copy()
-    number_cols = df.select_dtypes(include=np.number).columns.tolist()
-    df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]  # big number
-    df[number_cols] = df[number_cols][df[number_cols] != 0.0]
-    df = df.dropna()
+    numbers = df.select_dtypes(include=np.number, exclude=np.timedelta64)
+    usable = (numbers < math.exp(709)) & (numbers != 0.0)  # big number
+    df = df[usable.all(axis=1)].dropna()
     return df
 
 
-- 
2.43.0


From ee61c665e17056d5f4def452dbf1be3d724128c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 21/21] fix: a result edited by the caller no longer changes
 later reads of the indicator

---
 ta/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ta/utils.py b/ta/utils.py
index 201a6ce..c03239f 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -33,6 +33,8 @@ class IndicatorMixin:
                 series = series_output.ffill().bfill()
             else:
                 series = series_output.ffill().fillna(value)
+        else:
+            series = series.copy()  # results do not share memory with the indicator
         return series
 
     @staticmethod
-- 
2.43.0

