From b60daff2d186abfcf2e3dafbbc4583824f3bd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 01/27] fix: PSAR writes the clamped stop by position, not by
 index label

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 553afad..8cd8623 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1027,7 +1027,7 @@ class PSARIndicator(IndicatorMixin):
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
-                        self._psar[i] = high2
+                        self._psar.iloc[i] = high2
                     elif high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
-- 
2.43.0


From 474a1930a78c6e6f58e4f1a142ed0aec0e9ab0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 02/27] fix: ATR takes its first window by position, not by
 index label

---
 ta/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 3bbf57e..ff82287 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,7 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range[0 : self._window].mean()
+        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From 51fbfd495346ac52f8ebe362276bd102b00dee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 03/27] fix: ATR returns zeros instead of raising when there
 are fewer rows than the window

---
 ta/volatility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index ff82287..dbcbd18 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,8 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
+        if len(atr) >= self._window:
+            atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From bf1931ac6a1813230625e8c945b658b14983acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 04/27] fix: ADX returns zeros instead of raising when there
 are too few rows

---
 ta/trend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cd8623..54a4fee 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -727,7 +727,7 @@ class ADXIndicator(IndicatorMixin):
         diff_directional_movement = pdm - pdn
 
         self._trs_initial = np.zeros(self._window - 1)
-        self._trs = np.zeros(len(self._close) - (self._window - 1))
+        self._trs = np.zeros(max(len(self._close) - (self._window - 1), 1))
         self._trs[0] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
@@ -744,7 +744,7 @@ class ADXIndicator(IndicatorMixin):
         pos = abs(((diff_up > diff_down) & (diff_up > 0)) * diff_up)
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
-        self._dip = np.zeros(len(self._close) - (self._window - 1))
+        self._dip = np.zeros(max(len(self._close) - (self._window - 1), 1))
         self._dip[0] = pos.dropna().iloc[0 : self._window].sum()
 
         pos = pos.reset_index(drop=True)
@@ -756,7 +756,7 @@ class ADXIndicator(IndicatorMixin):
                 + pos[self._window + i]
             )
 
-        self._din = np.zeros(len(self._close) - (self._window - 1))
+        self._din = np.zeros(max(len(self._close) - (self._window - 1), 1))
         self._din[0] = neg.dropna().iloc[0 : self._window].sum()
 
         neg = neg.reset_index(drop=True)
@@ -804,7 +804,8 @@ class ADXIndicator(IndicatorMixin):
                 directional_index[idx] = 0
 
         adx_series = np.zeros(len(self._trs))
-        adx_series[self._window] = directional_index[0 : self._window].mean()
+        if len(adx_series) > self._window:
+            adx_series[self._window] = directional_index[0 : self._window].mean()
 
         for i in range(self._window + 1, len(adx_series)):
             adx_series[i] = (
@@ -812,6 +813,7 @@ class ADXIndicator(IndicatorMixin):
             ) / float(self._window)
 
         adx_series = np.concatenate((self._trs_initial, adx_series), axis=0)
+        adx_series = adx_series[: len(self._close)]
         adx_series = pd.Series(data=adx_series, index=self._close.index)
         adx_series = self._check_fillna(adx_series, value=20)
 
-- 
2.43.0


From b6d686ca8d74d8d72a16c809d9c81137c08a2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 05/27] fix: KAMA accepts integer close prices

---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 69a4cda..c535ba1 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -322,7 +322,7 @@ class KAMAIndicator(IndicatorMixin):
         er_num = abs(close_values - np.roll(close_values, self._window))
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
-            er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
+            er_num, er_den, out=np.zeros(len(er_num)), where=er_den != 0
         )
 
         smoothing_constant = (
-- 
2.43.0


From c4aad57f931bfa1753445a9a43cf4b5b2eceb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 06/27] fix: KAMA does not wrap around to the last closes for
 the first rows

---
 ta/momentum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index c535ba1..1a143c4 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -316,10 +316,13 @@ class KAMAIndicator(IndicatorMixin):
 
     def _run(self):
         close_values = self._close.values
-        vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
+        vol = pd.Series(np.abs(np.diff(close_values, prepend=close_values[0])))
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window))
+        er_num = abs(
+            close_values
+            - self._close.shift(self._window, fill_value=close_values[0]).values
+        )
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros(len(er_num)), where=er_den != 0
-- 
2.43.0


From 43a084fef23bc6e2702e686370f4bbede3b73262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 07/27] fix: KST, DPO, TRIX, Vortex and visual Ichimoku do not
 use the mean of the whole series as missing history

---
 ta/trend.py | 50 +++++++++++++-------------------------------------
 1 file changed, 13 insertions(+), 37 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 54a4fee..3b54b9f 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -270,9 +270,7 @@ class TRIXIndicator(IndicatorMixin):
         ema1 = _ema(self._close, self._window, self._fillna)
         ema2 = _ema(ema1, self._window, self._fillna)
         ema3 = _ema(ema2, self._window, self._fillna)
-        self._trix = (ema3 - ema3.shift(1, fill_value=ema3.mean())) / ema3.shift(
-            1, fill_value=ema3.mean()
-        )
+        self._trix = (ema3 - ema3.shift(1)) / ema3.shift(1)
         self._trix *= 100
 
     def trix(self) -> pd.Series:
@@ -410,11 +408,7 @@ class IchimokuIndicator(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         spana = 0.5 * (self._conv + self._base)
-        spana = (
-            spana.shift(self._window2, fill_value=spana.mean())
-            if self._visual
-            else spana
-        )
+        spana = spana.shift(self._window2) if self._visual else spana
         spana = self._check_fillna(spana, value=-1)
         return pd.Series(spana, name=f"ichimoku_a_{self._window1}_{self._window2}")
 
@@ -428,11 +422,7 @@ class IchimokuIndicator(IndicatorMixin):
             self._high.rolling(self._window3, min_periods=0).max()
             + self._low.rolling(self._window3, min_periods=0).min()
         )
-        spanb = (
-            spanb.shift(self._window2, fill_value=spanb.mean())
-            if self._visual
-            else spanb
-        )
+        spanb = spanb.shift(self._window2) if self._visual else spanb
         spanb = self._check_fillna(spanb, value=-1)
         return pd.Series(spanb, name=f"ichimoku_b_{self._window1}_{self._window2}")
 
@@ -495,44 +485,32 @@ class KSTIndicator(IndicatorMixin):
         min_periods_n4 = 0 if self._fillna else self._window4
         rocma1 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r1, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r1, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r1))
+                / self._close.shift(self._r1)
             )
             .rolling(self._window1, min_periods=min_periods_n1)
             .mean()
         )
         rocma2 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r2, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r2, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r2))
+                / self._close.shift(self._r2)
             )
             .rolling(self._window2, min_periods=min_periods_n2)
             .mean()
         )
         rocma3 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r3, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r3, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r3))
+                / self._close.shift(self._r3)
             )
             .rolling(self._window3, min_periods=min_periods_n3)
             .mean()
         )
         rocma4 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r4, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r4, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r4))
+                / self._close.shift(self._r4)
             )
             .rolling(self._window4, min_periods=min_periods_n4)
             .mean()
@@ -596,9 +574,7 @@ class DPOIndicator(IndicatorMixin):
     def _run(self):
         min_periods = 0 if self._fillna else self._window
         self._dpo = (
-            self._close.shift(
-                int((0.5 * self._window) + 1), fill_value=self._close.mean()
-            )
+            self._close.shift(int((0.5 * self._window) + 1))
             - self._close.rolling(self._window, min_periods=min_periods).mean()
         )
 
@@ -895,7 +871,7 @@ class VortexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_shift = self._close.shift(1, fill_value=self._close.mean())
+        close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         min_periods = 0 if self._fillna else self._window
         trn = true_range.rolling(self._window, min_periods=min_periods).sum()
-- 
2.43.0


From 4b07b3bb4635154b00c583b71cc0e41ba06ae19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 08/27] fix: DonchianChannel fills the rows its offset leaves
 empty when fillna is on

---
 ta/volatility.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index dbcbd18..bb80bcd 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -377,9 +377,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        hband = self._check_fillna(self._hband, value=-1)
+        hband = self._hband
         if self._offset != 0:
             hband = hband.shift(self._offset)
+        hband = self._check_fillna(hband, value=-1)
         return pd.Series(hband, name="dchband")
 
     def donchian_channel_lband(self) -> pd.Series:
@@ -388,9 +389,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        lband = self._check_fillna(self._lband, value=-1)
+        lband = self._lband
         if self._offset != 0:
             lband = lband.shift(self._offset)
+        lband = self._check_fillna(lband, value=-1)
         return pd.Series(lband, name="dclband")
 
     def donchian_channel_mband(self) -> pd.Series:
@@ -400,9 +402,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         mband = ((self._hband - self._lband) / 2.0) + self._lband
-        mband = self._check_fillna(mband, value=-1)
         if self._offset != 0:
             mband = mband.shift(self._offset)
+        mband = self._check_fillna(mband, value=-1)
         return pd.Series(mband, name="dcmband")
 
     def donchian_channel_wband(self) -> pd.Series:
@@ -413,9 +415,9 @@ class DonchianChannel(IndicatorMixin):
         """
         mavg = self._close.rolling(self._window, min_periods=self._min_periods).mean()
         wband = ((self._hband - self._lband) / mavg) * 100
-        wband = self._check_fillna(wband, value=0)
         if self._offset != 0:
             wband = wband.shift(self._offset)
+        wband = self._check_fillna(wband, value=0)
         return pd.Series(wband, name="dcwband")
 
     def donchian_channel_pband(self) -> pd.Series:
@@ -425,9 +427,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         pband = (self._close - self._lband) / (self._hband - self._lband)
-        pband = self._check_fillna(pband, value=0)
         if self._offset != 0:
             pband = pband.shift(self._offset)
+        pband = self._check_fillna(pband, value=0)
         return pd.Series(pband, name="dcpband")
 
 
-- 
2.43.0


From f792095dd0489ccbb069deefc86ceb643f4ec774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 09/27] fix: fillna leaves no gap in a line that has no value
 at all

---
 ta/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index 9f93bab..97766ca 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -30,7 +30,7 @@ class IndicatorMixin:
             series_output = series.copy(deep=False)
             series_output = series_output.replace([np.inf, -np.inf], np.nan)
             if isinstance(value, int) and value == -1:
-                series = series_output.ffill().bfill()
+                series = series_output.ffill().bfill().fillna(0)
             else:
                 series = series_output.ffill().fillna(value)
         return series
-- 
2.43.0


From 85a1682a505ab19bb037028d166de6a5ec2eb504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 10/27] fix: Keltner bands (original version) respect the
 warm-up window like the middle band

---
 ta/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index bb80bcd..4c98f8d 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -234,12 +234,12 @@ class KeltnerChannel(IndicatorMixin):
             )
             self._tp_high = (
                 (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
             self._tp_low = (
                 (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
         else:
-- 
2.43.0


From 1e4af6e7002a94973e46f7f66ea172e5b691a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 11/27] fix: Ichimoku span B respects its warm-up window when
 fillna is off

---
 ta/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 3b54b9f..e52bfef 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -418,9 +418,10 @@ class IchimokuIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
+        min_periods_n3 = 0 if self._fillna else self._window3
         spanb = 0.5 * (
-            self._high.rolling(self._window3, min_periods=0).max()
-            + self._low.rolling(self._window3, min_periods=0).min()
+            self._high.rolling(self._window3, min_periods=min_periods_n3).max()
+            + self._low.rolling(self._window3, min_periods=min_periods_n3).min()
         )
         spanb = spanb.shift(self._window2) if self._visual else spanb
         spanb = self._check_fillna(spanb, value=-1)
-- 
2.43.0


From a75374918c6a55cb8627de2206874f2df60bfaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 12/27] fix: KST signal respects its warm-up window when fillna
 is off

---
 ta/trend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index e52bfef..f271e6a 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -517,7 +517,10 @@ class KSTIndicator(IndicatorMixin):
             .mean()
         )
         self._kst = 100 * (rocma1 + 2 * rocma2 + 3 * rocma3 + 4 * rocma4)
-        self._kst_sig = self._kst.rolling(self._nsig, min_periods=0).mean()
+        min_periods_sig = 0 if self._fillna else self._nsig
+        self._kst_sig = self._kst.rolling(
+            self._nsig, min_periods=min_periods_sig
+        ).mean()
 
     def kst(self) -> pd.Series:
         """Know Sure Thing (KST)
-- 
2.43.0


From 3423e29f1f627b9e4ff3f37c1f493c6a3323dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 13/27] fix: Aroon counts bars since the extreme also in the
 shorter first windows of fillna

---
 ta/trend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index f271e6a..df8c933 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -44,12 +44,18 @@ class AroonIndicator(IndicatorMixin):
 
         rolling_high = self._high.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_up = rolling_high.apply(
-            lambda x: float(np.argmax(x)) / self._window * 100, raw=True
+            lambda x: float(np.argmax(x) + self._window + 1 - len(x))
+            / self._window
+            * 100,
+            raw=True,
         )
 
         rolling_low = self._low.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_down = rolling_low.apply(
-            lambda x: float(np.argmin(x)) / self._window * 100, raw=True
+            lambda x: float(np.argmin(x) + self._window + 1 - len(x))
+            / self._window
+            * 100,
+            raw=True,
         )
 
     def aroon_up(self) -> pd.Series:
-- 
2.43.0


From 33d87e961c76d201e42a032a4957e766de602241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 14/27] fix: OBV is unchanged on a bar that closes where the
 previous one did

---
 ta/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index eabf4d2..85fbed4 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -83,7 +83,9 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        obv = np.where(self._close < self._close.shift(1), -self._volume, self._volume)
+        close_shift = self._close.shift(1)
+        obv = np.where(self._close < close_shift, -self._volume, self._volume)
+        obv = np.where(self._close == close_shift, 0, obv)
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
     def on_balance_volume(self) -> pd.Series:
-- 
2.43.0


From 63ae0dc8d22b2c094eb54487bc299de4bfed1e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 15/27] fix: ADX starts from the first window bars, not from
 later ones, when values are missing

---
 ta/trend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index df8c933..babfca5 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -714,7 +714,7 @@ class ADXIndicator(IndicatorMixin):
 
         self._trs_initial = np.zeros(self._window - 1)
         self._trs = np.zeros(max(len(self._close) - (self._window - 1), 1))
-        self._trs[0] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
+        self._trs[0] = diff_directional_movement.iloc[1 : self._window + 1].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
         for i in range(1, len(self._trs) - 1):
@@ -731,7 +731,7 @@ class ADXIndicator(IndicatorMixin):
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
         self._dip = np.zeros(max(len(self._close) - (self._window - 1), 1))
-        self._dip[0] = pos.dropna().iloc[0 : self._window].sum()
+        self._dip[0] = pos.iloc[1 : self._window + 1].sum()
 
         pos = pos.reset_index(drop=True)
 
@@ -743,7 +743,7 @@ class ADXIndicator(IndicatorMixin):
             )
 
         self._din = np.zeros(max(len(self._close) - (self._window - 1), 1))
-        self._din[0] = neg.dropna().iloc[0 : self._window].sum()
+        self._din[0] = neg.iloc[1 : self._window + 1].sum()
 
         neg = neg.reset_index(drop=True)
 
-- 
2.43.0


From 378a388486d7a50d00f63d5745b5b015ad51acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 16/27] fix: ease of movement no longer overflows narrow
 integer volumes

---
 ta/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index 85fbed4..72eca25 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -231,7 +231,7 @@ class EaseOfMovementIndicator(IndicatorMixin):
         self._emv = (
             (self._high.diff(1) + self._low.diff(1))
             * (self._high - self._low)
-            / (2 * self._volume)
+            / (2.0 * self._volume)
         )
         self._emv *= 100000000
 
-- 
2.43.0


From fca0033287554a0cdb1d938c041183a8249dd5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 17/27] fix: OBV of unsigned integer volumes falls instead of
 wrapping around

---
 ta/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index 72eca25..1804af2 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -84,7 +84,7 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
 
     def _run(self):
         close_shift = self._close.shift(1)
-        obv = np.where(self._close < close_shift, -self._volume, self._volume)
+        obv = np.where(self._close < close_shift, -1.0 * self._volume, self._volume)
         obv = np.where(self._close == close_shift, 0, obv)
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
-- 
2.43.0


From a70366845d68951ab5d9cfaa7439ac137140c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 18/27] fix: dropna keeps the exact values of large integers in
 the rows it keeps

---
 ta/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ta/utils.py b/ta/utils.py
index 97766ca..ef78e08 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -49,9 +49,9 @@ class IndicatorMixin:
 def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
     df = df.copy()
-    number_cols = df.select_dtypes(include=np.number).columns.tolist()
-    df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]  # big number
-    df[number_cols] = df[number_cols][df[number_cols] != 0.0]
+    numbers = df.select_dtypes(include=np.number)
+    usable = (numbers < math.exp(709)) & (numbers != 0.0)  # big number
+    df = df[usable.all(axis=1)]
     df = df.dropna()
     return df
 
-- 
2.43.0


From 6aa811ed809ef46d0f5571cbef89fffa787305ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 19/27] fix: dropna accepts frames with a column of time spans

---
 ta/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index ef78e08..6b1d39f 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -49,7 +49,7 @@ class IndicatorMixin:
 def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
     df = df.copy()
-    numbers = df.select_dtypes(include=np.number)
+    numbers = df.select_dtypes(include=np.number, exclude="timedelta")
     usable = (numbers < math.exp(709)) & (numbers != 0.0)  # big number
     df = df[usable.all(axis=1)]
     df = df.dropna()
-- 
2.43.0


From a6a6780579905352e4ecd29d4c3b98a46b1aa7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 20/27] fix: RSI of unsigned integer prices falls instead of
 wrapping around

---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 1a143c4..52c360e 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -34,7 +34,7 @@ class RSIIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        diff = self._close.diff(1)
+        diff = self._close.astype(float).diff(1)
         up_direction = diff.where(diff > 0, 0.0)
         down_direction = -diff.where(diff < 0, 0.0)
         min_periods = 0 if self._fillna else self._window
-- 
2.43.0


From b1cf40fe6997ee61facf44403b16fb4d7804272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 21/27] fix: KAMA does not wrap around on falls of unsigned
 integer prices

---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 52c360e..1af642a 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -315,7 +315,7 @@ class KAMAIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_values = self._close.values
+        close_values = self._close.values.astype(float)
         vol = pd.Series(np.abs(np.diff(close_values, prepend=close_values[0])))
 
         min_periods = 0 if self._fillna else self._window
-- 
2.43.0


From f49684f368e6a60ee74c4db1efa1277e2bb584c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 22/27] fix: ADI and CMF do not wrap around on closes in the
 lower half of a bar of unsigned integers

---
 ta/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volume.py b/ta/volume.py
index 1804af2..711f105 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -45,7 +45,7 @@ class AccDistIndexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        clv = ((self._close - self._low) - (self._high - self._close)) / (
+        clv = (1.0 * (self._close - self._low) - (self._high - self._close)) / (
             self._high - self._low
         )
         clv = clv.fillna(0.0)  # float division by zero
@@ -132,7 +132,7 @@ class ChaikinMoneyFlowIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        mfv = ((self._close - self._low) - (self._high - self._close)) / (
+        mfv = (1.0 * (self._close - self._low) - (self._high - self._close)) / (
             self._high - self._low
         )
         mfv = mfv.fillna(0.0)  # float division by zero
-- 
2.43.0


From c3f7e366541e5df820785a53c6b772838976ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 23/27] fix: ease of movement does not wrap around on falls of
 unsigned integer prices

---
 ta/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index 711f105..b900b71 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -229,7 +229,7 @@ class EaseOfMovementIndicator(IndicatorMixin):
 
     def _run(self):
         self._emv = (
-            (self._high.diff(1) + self._low.diff(1))
+            (self._high.astype(float).diff(1) + self._low.astype(float).diff(1))
             * (self._high - self._low)
             / (2.0 * self._volume)
         )
-- 
2.43.0


From 8c12384e49e8544851e19646e3583cd515317add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 24/27] fix: Keltner bands accept unsigned integer prices

---
 ta/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 4c98f8d..2d66056 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -233,12 +233,12 @@ class KeltnerChannel(IndicatorMixin):
                 .mean()
             )
             self._tp_high = (
-                (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
+                (((4.0 * self._high) - (2.0 * self._low) + self._close) / 3.0)
                 .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
             self._tp_low = (
-                (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
+                (((-2.0 * self._high) + (4.0 * self._low) + self._close) / 3.0)
                 .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
-- 
2.43.0


From 4725a492040310cc0df2aae3468e7fa552787e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 25/27] fix: typical and median prices do not overflow narrow
 integers

---
 ta/momentum.py   | 2 +-
 ta/trend.py      | 2 +-
 ta/volatility.py | 2 +-
 ta/volume.py     | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 1af642a..b0d7d31 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -458,7 +458,7 @@ class AwesomeOscillatorIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        median_price = 0.5 * (self._high + self._low)
+        median_price = 0.5 * (1.0 * self._high + self._low)
         min_periods_s = 0 if self._fillna else self._window1
         min_periods_len = 0 if self._fillna else self._window2
         self._ao = (
diff --git a/ta/trend.py b/ta/trend.py
index babfca5..ff10253 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -640,7 +640,7 @@ class CCIIndicator(IndicatorMixin):
             return np.mean(np.abs(x - np.mean(x)))
 
         min_periods = 0 if self._fillna else self._window
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
         self._cci = (
             typical_price
             - typical_price.rolling(self._window, min_periods=min_periods).mean()
diff --git a/ta/volatility.py b/ta/volatility.py
index 2d66056..3bf90ef 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -228,7 +228,7 @@ class KeltnerChannel(IndicatorMixin):
         min_periods = 1 if self._fillna else self._window
         if self._original_version:
             self._tp = (
-                ((self._high + self._low + self._close) / 3.0)
+                ((1.0 * self._high + self._low + self._close) / 3.0)
                 .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
diff --git a/ta/volume.py b/ta/volume.py
index b900b71..f56ff2e 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -387,7 +387,7 @@ class MFIIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
         up_down = np.where(
             typical_price > typical_price.shift(1),
             1,
@@ -465,7 +465,7 @@ class VolumeWeightedAveragePrice(IndicatorMixin):
 
     def _run(self):
         # 1 typical price
-        typical_price = (self._high + self._low + self._close) / 3.0
+        typical_price = (1.0 * self._high + self._low + self._close) / 3.0
 
         # 2 typical price * volume
         typical_price_volume = typical_price * self._volume
-- 
2.43.0


From ae6eb7efe9a5cc4873d679eff86a5b051a19fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 26/27] fix: PSAR computes with floats when prices are unsigned
 or narrow integers

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index ff10253..b1bcb57 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -962,7 +962,7 @@ class PSARIndicator(IndicatorMixin):
         up_trend_high = self._high.iloc[0]
         down_trend_low = self._low.iloc[0]
 
-        self._psar = self._close.copy()
+        self._psar = self._close.astype(float)
         self._psar_up = pd.Series(index=self._psar.index, dtype="float64")
         self._psar_down = pd.Series(index=self._psar.index, dtype="float64")
 
-- 
2.43.0


From abffd59ff40f6f2e24ea50798a5ddd5e925bb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 27/27] fix: daily log return of narrow integer prices has full
 precision

---
 ta/others.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/others.py b/ta/others.py
index c986b14..a85c391 100644
--- a/ta/others.py
+++ b/ta/others.py
@@ -54,7 +54,7 @@ class DailyLogReturnIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        self._dr = pd.Series(np.log(self._close)).diff()
+        self._dr = pd.Series(np.log(self._close.astype(float))).diff()
         self._dr *= 100
 
     def daily_log_return(self) -> pd.Series:
-- 
2.43.0

