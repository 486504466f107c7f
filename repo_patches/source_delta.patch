From 1aefd0d20316e1e15f9403b938b641d2fe0af6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:57 +0000
Subject: [PATCH 1/6] fix: renyi_information no longer modifies the caller's
 timestamps and freq

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index c224b1d..2276f38 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -87,10 +87,10 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if timestamps is None:
         timestamps = np.arange(n) + 1
     elif np.allclose(timestamps, np.arange(n)):
-        timestamps += 1
+        timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
-    freq.sort()
+    freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
-- 
2.43.0


From 0673cbdb73a9f1e5562c487095c283f4285305d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:54 +0000
Subject: [PATCH 2/6] fix: run() builds each time-frequency matrix from
 scratch, so it can be repeated

run() accumulated into self.tfr, which a previous run() or plot() had already
replaced: a second run, or a run after an aborted one, returned a wrong matrix
(or raised). Each run now fills its own buffer and publishes it when complete.
---
 tftb/processing/affine.py | 16 +++++++-----
 tftb/processing/cohen.py  | 54 ++++++++++++++++++++++-----------------
 tftb/processing/linear.py |  9 ++++---
 3 files changed, 44 insertions(+), 35 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index fd51e1e..410083b 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -178,6 +178,7 @@ class Scalogram(AffineDistribution):
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
         wt = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
+        tfr = np.zeros(self.tfr.shape, dtype=complex)
         if self.waveparams > 0:
             for ptr in range(self.n_voices):
                 nha = self.waveparams * a[ptr]
@@ -193,7 +194,7 @@ class Scalogram(AffineDistribution):
                 )
                 wt[ptr, :] = detail[self.ts]
                 detail = detail[ix]
-                self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
+                tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif self.waveparams == 0:
             for ptr in range(self.n_voices):
                 ha = mexhat(f[ptr])
@@ -204,7 +205,7 @@ class Scalogram(AffineDistribution):
                 )
                 detail = detail[ix]
                 wt[ptr, :] = detail[self.ts]
-                self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
+                tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif isinstance(self.waveparams, np.ndarray):
             rwav, cwav = self.waveparams.shape
             if cwav > rwav:
@@ -238,17 +239,18 @@ class Scalogram(AffineDistribution):
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 detail = detail[int(np.floor(nha)): (detail.shape[0] - np.round(nha))]
                 wt[ptr, :] = detail[self.ts]
-                self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
+                tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
 
         # Normalization
         SP = np.fft.fft(self.z, axis=0)
         indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
         indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
         SPana = SP[indmin: (indmax + 1)]
-        self.tfr = np.real(self.tfr)
-        self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
-        self.tfr /= self.n_voices
-        return self.tfr, self.ts, f, wt
+        tfr = np.real(tfr)
+        tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(tfr, self.ts, f)
+        tfr /= self.n_voices
+        self.tfr = tfr
+        return tfr, self.ts, f, wt
 
 
 class UnterbergerDistribution(AffineDistribution):
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ae9ea6b..5c59590 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -20,6 +20,7 @@ class Spectrogram(ShortTimeFourierTransform):
     name = "spectrogram"
 
     def run(self):
+        tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
@@ -27,16 +28,16 @@ class Spectrogram(ShortTimeFourierTransform):
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
                       self.signal.shape[0] - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
-        for icol in range(self.tfr.shape[1]):
+        for icol in range(tfr.shape[1]):
             ti = self.ts[icol]
             start = starts[icol]
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices.astype(int), icol] = self.signal[ti + tau - 1] * \
+            tfr[indices.astype(int), icol] = self.signal[ti + tau - 1] * \
                 conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])
-        self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2
-        return self.tfr, self.ts, self.freqs
+        self.tfr = tfr = np.abs(np.fft.fft(tfr, axis=0)) ** 2
+        return tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', **kwargs):
         thresh = kwargs.pop("threshold", 0.0)
@@ -49,15 +50,16 @@ class PageRepresentation(BaseTFRepresentation):
     name = "page representation"
 
     def run(self):
+        tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
                                   self.signal.shape[0] - ti]), ti)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices, icol] = np.dot(self.signal[ti],
-                                             np.conj(self.signal[ti - tau - 1]))
-        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
-        return self.tfr, self.ts, self.freqs
+            tfr[indices, icol] = np.dot(self.signal[ti],
+                                        np.conj(self.signal[ti - tau - 1]))
+        self.tfr = tfr = np.real(np.fft.fft(tfr, axis=0))
+        return tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
         self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
@@ -96,16 +98,17 @@ class MargenauHillDistribution(BaseTFRepresentation):
     name = "margenau-hill"
 
     def run(self):
+        tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
                                   self.signal.shape[0] - ti)) + 1, ti)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices, icol] = self.signal[ti] * \
+            tfr[indices, icol] = self.signal[ti] * \
                 np.conj(self.signal[ti - tau])
 
-        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
-        return self.tfr, self.ts, self.freqs
+        self.tfr = tfr = np.real(np.fft.fft(tfr, axis=0))
+        return tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
         self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
@@ -131,6 +134,7 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         return fwindow / fwindow[lh]
 
     def run(self):
+        tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
@@ -138,10 +142,10 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
             end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
             tau = np.arange(-start, end + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
+            tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
                 np.conj(self.signal[icol - tau - 1])
-        self.tfr = np.fft.fft(self.tfr, axis=0)
-        return self.tfr, self.ts, self.freqs
+        self.tfr = tfr = np.fft.fft(tfr, axis=0)
+        return tfr, self.ts, self.freqs
 
 
 class WignerVilleDistribution(BaseTFRepresentation):
@@ -149,6 +153,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
+        tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         tausec = round(self.n_fbins / 2.0)
         winlength = tausec - 1
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
@@ -159,16 +164,16 @@ class WignerVilleDistribution(BaseTFRepresentation):
             taumax = taulens[icol]
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
-            self.tfr[indices, icol] = self.signal[icol + tau] * \
+            tfr[indices, icol] = self.signal[icol + tau] * \
                 conj_signal[icol - tau]
             if (icol <= self.signal.shape[0] - tausec) and (icol >= tausec + 1):
-                self.tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
+                tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
                     np.conj(self.signal[icol - tausec, 0]) + \
                     self.signal[icol - tausec, 0] * conj_signal[icol + tausec, 0]
-        self.tfr = np.fft.fft(self.tfr, axis=0)
-        self.tfr = np.real(self.tfr)
+        tfr = np.fft.fft(tfr, axis=0)
+        self.tfr = tfr = np.real(tfr)
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
-        return self.tfr, self.ts, self.freqs
+        return tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=False, **kwargs):
         scale = kwargs.pop("scale", "linear")
@@ -192,6 +197,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
     name = "pseudo winger-ville"
 
     def run(self):
+        tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
@@ -199,18 +205,18 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
             taumax = np.min(taumaxvals)
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
-            self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
+            tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
                 np.conj(self.signal[icol - tau])
             tau = np.round(self.n_fbins / 2.0)
             if (icol <= self.signal.shape[0] - tau) and (icol >= tau + 1) and (tau <= lh):
-                self.tfr[int(tau), icol] = self.fwindow[lh + tau] * \
+                tfr[int(tau), icol] = self.fwindow[lh + tau] * \
                     self.signal[icol + tau, 0] * np.conj(self.signal[icol - tau, 0]) + \
                     self.fwindow[lh - tau] * self.signal[icol - tau, 0] * \
                     np.conj(self.signal[icol + tau, 0])
-                self.tfr[int(tau), icol] *= 0.5
+                tfr[int(tau), icol] *= 0.5
 
-        self.tfr = np.fft.fft(self.tfr, axis=0)
-        return np.real(self.tfr), self.ts, self.freqs
+        self.tfr = tfr = np.fft.fft(tfr, axis=0)
+        return np.real(tfr), self.ts, self.freqs
 
     def plot(self, **kwargs):
         if "kind" not in kwargs:
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 8615525..d08b261 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -55,6 +55,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         .. math:: X[m, w] = \sum_{n=-\infty}^{\infty}x[n]w[n - m]e^{-j\omega n}
 
         Where :math:`w` is a Hamming window."""
+        tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0), lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
@@ -64,15 +65,15 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
                             self.signal.shape[0] - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
-        for icol in range(self.tfr.shape[1]):
+        for icol in range(tfr.shape[1]):
             start = starts[icol]
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             index = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[index, icol] = self.signal[(icol + tau - 1).astype(int)] * \
+            tfr[index, icol] = self.signal[(icol + tau - 1).astype(int)] * \
                 conj_fwindow[(lh + tau).astype(int)]
-        self.tfr = np.fft.fft(self.tfr, axis=0)
-        return self.tfr, self.ts, self.freqs
+        self.tfr = tfr = np.fft.fft(tfr, axis=0)
+        return tfr, self.ts, self.freqs
 
     def plot(self, ax=None, kind='cmap', sqmod=True, threshold=0.05, **kwargs):
         """Display the spectrogram of an STFT.
-- 
2.43.0


From c027b1b920f12af121dbf9d6ca0121c1c0dfa21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 3/6] fix: plot() no longer alters the representation or the
 arrays returned by run()

plot() truncated, squared and thresholded self.tfr (and self.freqs) in place,
so a second plot(), a later run(), or the array returned by an earlier run()
saw the altered data. Draw from a shallow copy of the representation instead.
---
 tftb/processing/affine.py |  9 ++++++---
 tftb/processing/cohen.py  | 23 +++++++++++++----------
 tftb/processing/linear.py | 14 ++++++++------
 3 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 410083b..caba3bc 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -10,6 +10,7 @@
 Bilinear Time-Frequency Processing in the Affine Class.
 """
 
+import copy
 import numpy as np
 from scipy.signal import hilbert
 from scipy.optimize import brenth, newton
@@ -107,13 +108,15 @@ class AffineDistribution(BaseTFRepresentation):
         return beta, mellin1, mellin2
 
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
-        _thresh = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _thresh] = 0
+        view = copy.copy(self)
+        view.tfr = self.tfr.copy()
+        _thresh = np.amax(view.tfr) * threshold
+        view.tfr[view.tfr <= _thresh] = 0
         freq_y = kwargs.pop(
             "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
         )
 
-        super(AffineDistribution, self).plot(
+        super(AffineDistribution, view).plot(
             kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
         )
 
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 5c59590..a17142a 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -10,6 +10,7 @@
 Bilinear Time-Frequency Processing in the Cohen’s Class.
 """
 
+import copy
 import numpy as np
 from tftb.processing.linear import ShortTimeFourierTransform
 from tftb.processing.base import BaseTFRepresentation
@@ -111,13 +112,14 @@ class MargenauHillDistribution(BaseTFRepresentation):
         return tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
+        view = copy.copy(self)
+        view.tfr = self.tfr[:(self.tfr.shape[0] // 2), :].copy()
         if sqmod:
-            self.tfr = np.abs(self.tfr) ** 2
-        _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
+            view.tfr = np.abs(view.tfr) ** 2
+        _threshold = np.amax(view.tfr) * threshold
+        view.tfr[view.tfr <= _threshold] = 0.0
         extent = [0, self.ts.max(), 0, 0.5]
-        super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
+        super(MargenauHillDistribution, view).plot(kind=kind, extent=extent, **kwargs)
 
 
 class PseudoMargenauHillDistribution(MargenauHillDistribution):
@@ -182,13 +184,14 @@ class WignerVilleDistribution(BaseTFRepresentation):
             mini = max(np.amin(self.tfr), maxi * threshold)
             levels = np.logspace(np.log10(mini), np.log10(maxi), 65)
             kwargs['levels'] = levels
+        view = copy.copy(self)
         if sqmod:
-            self.tfr = np.abs(self.tfr) ** 2
+            view.tfr = np.abs(self.tfr) ** 2
         else:
-            self.tfr = np.abs(self.tfr)
-        _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
-        super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
+            view.tfr = np.abs(self.tfr)
+        _threshold = np.amax(view.tfr) * threshold
+        view.tfr[view.tfr <= _threshold] = 0.0
+        super(WignerVilleDistribution, view).plot(kind=kind, threshold=threshold,
                                                   **kwargs)
 
 
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index d08b261..59eee5a 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -10,6 +10,7 @@
 Linear Time Frequency Processing.
 """
 
+import copy
 import numpy as np
 from tftb.processing.base import BaseTFRepresentation
 from tftb.utils import nearest_odd, divider, modulo, izak
@@ -93,13 +94,14 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         :return: None
         :rtype: None
         """
-        self.tfr = self.tfr[:int(self.n_fbins / 2.0), :]
-        self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
+        view = copy.copy(self)
+        view.tfr = self.tfr[:int(self.n_fbins / 2.0), :].copy()
+        view.freqs = self.freqs[:int(self.n_fbins / 2.0)]
         if sqmod:
-            self.tfr = np.abs(self.tfr) ** 2
-        _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
-        super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
+            view.tfr = np.abs(view.tfr) ** 2
+        _threshold = np.amax(view.tfr) * threshold
+        view.tfr[view.tfr <= _threshold] = 0.0
+        super(ShortTimeFourierTransform, view).plot(ax=ax, kind=kind,
                                                     threshold=threshold,
                                                     **kwargs)
 
-- 
2.43.0


From e6fe47bb540c1948bb2f7b795a13e1cd0a178356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 4/6] fix: random signal generators return n_points samples for
 every n_points

anafsk returned a multiple of n_comp samples and anaqpsk raised when n_comp
does not divide n_points (its default for most lengths); dopnoise returned
n_points - 1 samples; noisecg raised TypeError for n_points <= 2.
---
 tftb/generators/analytic_signals.py | 4 ++--
 tftb/generators/noise.py            | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 74231fb..39a9bbe 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()
+    iflaw = np.repeat(freqs, n_comp).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()
+    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index fbc91e1..6f47b79 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -65,7 +65,7 @@ def noisecg(n_points, a1=None, a2=None):
     """
     assert n_points > 0
     if n_points <= 2:
-        noise = (np.random.randn(n_points, 1.) + 1j * np.random.randn(n_points, 1.)) / np.sqrt(2.)
+        noise = (np.random.randn(n_points, 1) + 1j * np.random.randn(n_points, 1)) / np.sqrt(2.)
     else:
         noise = np.random.normal(size=int(2. ** nextpow2(float(n_points)),))
         noise = hilbert(noise) / noise.std() / np.sqrt(2.)
@@ -117,10 +117,10 @@ def dopnoise(n_points, s_freq, f_target, distance, v_target,
     y = np.zeros((2 * n_points,))
     for t in range(2, 2 * n_points):
         y[t] = x[t] - rr * (x[t - 2] + y[t - 2]) + r2 * np.cos(2.0 * np.pi * iflaw[t]) * y[t - 1]
-    y = hilbert(y[(n_points + 1): (2 * n_points + 1)]) /\
-        np.sqrt(dist[(n_points + 1): (2 * n_points + 1)])
+    y = hilbert(y[n_points: (2 * n_points)]) /\
+        np.sqrt(dist[n_points: (2 * n_points)])
     y = y / np.sqrt(np.sum(np.abs(y) ** 2))
-    iflaw = iflaw[(n_points + 1):(2 * n_points + 1)]
+    iflaw = iflaw[n_points:(2 * n_points)]
     return y, iflaw
 
 
-- 
2.43.0


From 594ffc75c49b8722117083fdaf8ad99ec14d00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 5/6] fix: plot() draws on the axes it is given and opens one
 figure otherwise

The documented ax argument was overwritten with axes of a new figure, and
kind="surf" left a second, empty figure behind.
---
 tftb/processing/base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e44c297..f23c726 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -191,16 +191,14 @@ class BaseTFRepresentation(object):
                 self._annotate_signal(axTime)
                 self._annotate_spectrum(axSpec)
         else:
-            fig = plt.figure()
+            if ax is None:
+                projection = "3d" if kind in ("surf", "wireframe") else None
+                ax = plt.figure().add_subplot(111, projection=projection)
             if kind == "cmap":
-                ax = fig.add_subplot(111)
                 ax.imshow(self.tfr,
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
             elif kind == "surf":
-                from mpl_toolkits.mplot3d import Axes3D
-                fig = plt.figure()
-                ax = fig.add_subplot(projection="3d")
                 x = np.arange(self.signal.shape[0])
                 y = np.linspace(0, 0.5, self.signal.shape[0])
                 X, Y = np.meshgrid(x, y)
@@ -208,8 +206,6 @@ class BaseTFRepresentation(object):
                 if default_annotation:
                     ax.set_zlabel("Amplitude")
             elif kind == "wireframe":
-                from mpl_toolkits.mplot3d import Axes3D  # NOQA
-                ax = fig.add_subplot(projection="3d")
                 x = np.arange(self.signal.shape[0])
                 y = np.linspace(0, 0.5, self.signal.shape[0])
                 X, Y = np.meshgrid(x, y)
@@ -217,7 +213,6 @@ class BaseTFRepresentation(object):
                                   rstride=3, cstride=3)
             else:
                 t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
-                ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From dcb036de990efb64c00b7b5ae57dabe05968d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 6/6] fix: anaask and anabpsk accept n_points=1 like the other
 random generators

fmconst() was asked to centre the carrier on sample 1, which does not exist in a one-sample
signal, so both raised IndexError.
---
 tftb/generators/analytic_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 39a9bbe..65461d7 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -29,7 +29,7 @@ def anaask(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.random.rand(m)
     am = np.repeat(jumps, n_comp)[:n_points]
-    fm, _ = fmconst(n_points, f0, 1)
+    fm, _ = fmconst(n_points, f0, min(1, n_points - 1))
     y = am * fm
     return y, am
 
@@ -59,7 +59,7 @@ def anabpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = 2.0 * np.round(np.random.rand(m)) - 1
     am = np.repeat(jumps, n_comp)[:n_points]
-    y = am * fmconst(n_points, f0, 1)[0]
+    y = am * fmconst(n_points, f0, min(1, n_points - 1))[0]
     return y, am
 
 
-- 
2.43.0

