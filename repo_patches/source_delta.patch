From 974b8510ba317ca02aadb7cb4c2837a9bf64432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 001/231] fix: changing the spectrum smoothing discards the
 cached spectrum and CSM

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 652e0d3..5264eb0 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -702,6 +702,8 @@ class Signal(MultichannelData):
         """
         assert new_smoothing >= 0.0, "Smoothing must be positive or zero"
         self._spectrum_parameters["smoothing"] = float(new_smoothing)
+        self.__spectrum_state_update = True
+        self.__csm_state_update = True
 
     def set_spectrogram_parameters(
         self,
-- 
2.43.0


From 1362b0024fa8a039038aa2baf9f5cb6889f551ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 002/231] fix: only mark the spectrogram as up to date when it
 was cached

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 5264eb0..7a91e5c 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1046,9 +1046,9 @@ class Signal(MultichannelData):
                 self._spectrogram_parameters["padding"],
                 self._spectrogram_parameters["scaling"],
             )
-            self.__spectrogram_state_update = False
             if self.activate_cache:
                 self.spectrogram = deepcopy(spectrogram)
+                self.__spectrogram_state_update = False
             return spectrogram[0], spectrogram[1], spectrogram[2]
 
         return (
-- 
2.43.0


From 94825c247453756d88c2be8ec4de981a703ab448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 003/231] fix: setting or clearing the time window discards
 cached spectra

---
 dsptoolbox/classes/impulse_response.py | 1 +
 dsptoolbox/classes/signal.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index e1c6913..109ebec 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -149,6 +149,7 @@ class ImpulseResponse(Signal):
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
         self.window = window
+        self._update_state()
         return self
 
     def plot_time(self) -> tuple[Figure, list[Axes]]:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 7a91e5c..2e005e6 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -857,6 +857,7 @@ class Signal(MultichannelData):
         """Deletes the time window of the signal in case there is any."""
         if hasattr(self, "window"):
             del self.window
+            self.__update_state()
         return self
 
     # ======== Getters ========================================================
-- 
2.43.0


From 8d2837a3fac59a2c056cbf5ce938dce82443e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 004/231] fix: plotting a cached signal neither uses nor leaves
 a stale spectrum

---
 dsptoolbox/classes/signal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 2e005e6..62f8d38 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1106,12 +1106,12 @@ class Signal(MultichannelData):
         """
         # Handle smoothing
         prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         f, mag_db = _get_normalized_spectrum(
             f=f,
@@ -1341,7 +1341,7 @@ class Signal(MultichannelData):
             smoothing=0,
         )
         f, sp = self.get_spectrum()
-        self._spectrum_parameters = prior_spectrum_parameters
+        self.set_spectrum_parameters(**prior_spectrum_parameters)
 
         ph = np.angle(sp)
 
@@ -1497,13 +1497,13 @@ class Signal(MultichannelData):
         ), "Phase cannot be plotted since the spectrum is welch."
 
         prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
         ph = np.angle(sp)
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         if remove_ir_latency is None:
             pass
-- 
2.43.0


From a8dc9d877c2044dfb9ca336476e2ca7d2b62aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 005/231] fix: welch of a single channel with a single frame

---
 dsptoolbox/standard/_spectral_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 0147016..ade87db 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -128,9 +128,9 @@ def _welch(
         y_frames *= window[:, np.newaxis, np.newaxis]
 
     if not multi_channel:
-        x_frames = np.squeeze(x_frames)
+        x_frames = x_frames[..., 0]
         if not autospectrum:
-            y_frames = np.squeeze(y_frames)
+            y_frames = y_frames[..., 0]
 
     # Detrend
     if detrend:
-- 
2.43.0


From 81b61791b9e585df0d4ce9fa7020eeffedc20ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 006/231] fix: bias correction of the median average in welch's
 method

---
 dsptoolbox/standard/_spectral_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index ade87db..1daf1a5 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -158,7 +158,8 @@ def _welch(
             if sp_frames.shape[1] % 2 == 1
             else sp_frames.shape[1] - 1
         )
-        bias = np.sum((-1) ** (n + 1) / n)
+        k = np.arange(1, n + 1)
+        bias = np.sum((-1.0) ** (k + 1) / k)
         csd /= bias
 
     # Weightning (with 2 because one-sided)
-- 
2.43.0


From b8fd2c5ba1534a40696c31999028e5315242bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 007/231] fix: amplitude scalings of welch's method

---
 dsptoolbox/standard/_spectral_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 1daf1a5..d074442 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -165,7 +165,8 @@ def _welch(
     # Weightning (with 2 because one-sided)
     if scaling.has_physical_units():
         factor = scaling.get_scaling_factor(window_length_samples, fs_hz, window)
-        csd *= factor
+        # csd is still a power representation at this point
+        csd *= factor**2.0 if scaling.is_amplitude_scaling() else factor
         csd[np.array([0, -1]), ...] /= 2
 
     if scaling.is_amplitude_scaling():
-- 
2.43.0


From 9e939834ba48e1ecb029b4a2be7705c7cab58a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 008/231] fix: scaling of the FFT-based cross-spectral matrix

---
 dsptoolbox/classes/signal.py             |  5 +++++
 dsptoolbox/standard/_spectral_methods.py | 26 ++++++++++++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 62f8d38..83de916 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1001,6 +1001,11 @@ class Signal(MultichannelData):
                     old_scaling,
                     self.window if hasattr(self, "window") else None,
                     self.sampling_rate_hz,
+                    (
+                        next_fast_len(self.length_samples, True)
+                        if self._spectrum_parameters["pad_to_fast_length"]
+                        else self.length_samples
+                    ),
                 )
                 self.spectrum_scaling = old_scaling
             if self.activate_cache:
diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index d074442..8a15fcc 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -378,6 +378,7 @@ def _csm_fft(
     scaling: SpectrumScaling,
     window: NDArray[np.float64] | None,
     sampling_rate_hz: int,
+    time_length_samples: int,
 ) -> np.complex128:
     """Compute the cross-spectral matrix from a multichannel complex spectrum.
     It is assumed that the input spectrum has no scaling, i.e., FFTBackward
@@ -393,6 +394,8 @@ def _csm_fft(
         Time window if it has been applied.
     sampling_rate_hz : int
         Sampling rate.
+    time_length_samples : int
+        Length of the time data (including padding) used for the spectrum.
 
     Returns
     -------
@@ -432,14 +435,19 @@ def _csm_fft(
         return csm
 
     # Fix DC and Nyquist because one-sided
-    csm[np.array([0, -1]), ...] /= 2.0
-
-    # Conversion
-    factor = SpectrumScaling.FFTBackward.conversion_factor(
-        scaling, spectrum.shape[0] // 2 + 1, sampling_rate_hz, window
-    )[:, None]
-    factor = np.repeat(factor, number_of_channels, axis=-1)
-    csm *= factor[None, ...]
-    if scaling.is_amplitude_scaling():
+    if scaling.has_physical_units():
+        csm[0, ...] /= 2.0
+        if time_length_samples % 2 == 0:
+            csm[-1, ...] /= 2.0
+
+    # Conversion (always for the linear spectrum of each channel)
+    factor = np.squeeze(
+        scaling.get_scaling_factor(time_length_samples, sampling_rate_hz, window)
+    )
+    if not scaling.is_amplitude_scaling():
+        factor = factor**0.5
+    factor = np.broadcast_to(factor, (number_of_channels,))
+    csm *= factor[None, :, None] * factor[None, None, :]
+    if scaling.has_physical_units() and scaling.is_amplitude_scaling():
         csm = np.sqrt(csm)
     return csm
-- 
2.43.0


From 9439bd1de9393e8e1daecf304453b185086c7847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 009/231] fix: frequency vector of the spectrogram matches the
 FFT length

---
 dsptoolbox/standard/_spectral_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 8a15fcc..8fa637b 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -280,7 +280,7 @@ def _stft(
         stft *= factor
 
     time_s = np.linspace(0, len(x) / fs_hz, stft.shape[1])
-    freqs_hz = np.fft.rfftfreq(len(window), 1 / fs_hz)
+    freqs_hz = np.fft.rfftfreq(fft_length_samples, 1 / fs_hz)
     return time_s, freqs_hz, stft
 
 
-- 
2.43.0


From 74cb5aa88a7bdeba7d5b23e6f04a53e6c32b9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 010/231] fix: istft uses the same overlap as the STFT, also
 without overlap

---
 dsptoolbox/transforms/transforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2ca9f99..6a5e5cc 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -563,12 +563,13 @@ def istft(
         )
 
     # Reconstruct from framed representation to continuous
-    step = int((1 - parameters["overlap_percent"] / 100) * len(window))
+    # (rounding as in the forward transform)
+    overlap = int(parameters["overlap_percent"] / 100 * len(window) + 0.5)
+    step = len(window) - overlap
 
     if parameters["padding"]:
         td = _reconstruct_framed_signal(td_framed, step_size=step, window=window)
-        overlap = int(parameters["overlap_percent"] / 100 * len(window))
-        td = td[overlap:-overlap, :]
+        td = td[overlap : len(td) - overlap, :]
     else:
         extra_window = np.zeros_like(td_framed[:, 0, :])[:, np.newaxis, :]
         td_framed = np.append(extra_window, td_framed, axis=1)
-- 
2.43.0


From cfc8993ad6c1865c5e59cb8ffa4d2c7025a450bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 011/231] fix: istft inverts amplitude scalings and works with
 the default FFT length

---
 dsptoolbox/transforms/transforms.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 6a5e5cc..98a59d3 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -550,17 +550,27 @@ def istft(
         parameters["window_length_samples"],
     )
 
+    fft_length_samples = parameters["fft_length_samples"]
+    if fft_length_samples is None:
+        fft_length_samples = parameters["window_length_samples"]
+    if original_signal is not None:
+        sampling_rate_hz = original_signal.sampling_rate_hz
+
+    if parameters["scaling"].has_physical_units():
+        # Undo scaling of the one-sided spectrum
+        stft = stft / parameters["scaling"].get_scaling_factor(
+            fft_length_samples, sampling_rate_hz, window
+        )
+        stft[0, ...] *= 2**0.5
+        if fft_length_samples % 2 == 0:
+            stft[-1, ...] *= 2**0.5
     td_framed = np.fft.irfft(
         stft,
         axis=0,
-        n=parameters["fft_length_samples"],
+        n=fft_length_samples,
         norm=parameters["scaling"].fft_norm(),
     )
     td_framed = td_framed[: parameters["window_length_samples"], ...]
-    if parameters["scaling"].has_physical_units():
-        td_framed /= parameters["scaling"].get_scaling_factor(
-            parameters["fft_length_samples"], sampling_rate_hz, window
-        )
 
     # Reconstruct from framed representation to continuous
     # (rounding as in the forward transform)
-- 
2.43.0


From 3add65e5faf0648cb9ff6b2a4c0042c0d6100904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 012/231] fix: FFT-based cross-spectral matrix stays hermitian
 for amplitude scalings

---
 dsptoolbox/standard/_spectral_methods.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 8fa637b..52da0b0 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -450,4 +450,7 @@ def _csm_fft(
     csm *= factor[None, :, None] * factor[None, None, :]
     if scaling.has_physical_units() and scaling.is_amplitude_scaling():
         csm = np.sqrt(csm)
+        # The root of negative real entries is not hermitian on its own
+        rows, columns = np.tril_indices(number_of_channels, -1)
+        csm[:, columns, rows] = csm[:, rows, columns].conj()
     return csm
-- 
2.43.0


From c0f771f690407b14178274b0f8e4267ee323fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 013/231] fix: constraining the amplitude does not scale the
 caller's array and accepts integers

---
 dsptoolbox/classes/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 83de916..4e7113c 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -279,14 +279,14 @@ class Signal(MultichannelData):
             if new_time_data_imag is not None:
                 time_data_max = max(time_data_max, np.max(np.abs(new_time_data_imag)))
             if time_data_max > 1.0:
-                new_time_data /= time_data_max
+                new_time_data = new_time_data / time_data_max
                 warn(
                     "Signal was over 0 dBFS, normalizing to 0 dBFS "
                     + "peak level was triggered"
                 )
                 # Imaginary part is also scaled by same factor as real part
                 if new_time_data_imag is not None:
-                    new_time_data_imag /= time_data_max
+                    new_time_data_imag = new_time_data_imag / time_data_max
                 self.__amplitude_scale_factor = 1.0 / time_data_max
             else:
                 self.__amplitude_scale_factor = 1.0
-- 
2.43.0


From 3888930dadcb59fecfc6ce660f1e49e23deffe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 014/231] fix: activating the amplitude constraint keeps the
 imaginary part

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 4e7113c..2584aa3 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -452,7 +452,7 @@ class Signal(MultichannelData):
         self.__constrain_amplitude = nca
         # Restart time data setter for triggering normalization if needed
         if nca and hasattr(self, "time_data"):
-            ntd = self.time_data
+            ntd = self._get_data()
             self.time_data = ntd
 
     @property
-- 
2.43.0


From 4ab1a3a216b8c7cc6be4a5de4bfbc93c67a9cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 015/231] fix: the amplitude constraint also holds for an
 assigned imaginary part

---
 dsptoolbox/classes/signal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 2584aa3..850d1b8 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -406,6 +406,9 @@ class Signal(MultichannelData):
             assert (
                 new_imag.shape == self.__time_data.shape
             ), "Shape of imaginary part time data does not match"
+            if self.constrain_amplitude and np.max(np.abs(new_imag)) > 1.0:
+                self.time_data = self.time_data + 1j * new_imag
+                return
         self.__time_data_imaginary: NDArray[np.float64] | None = new_imag
 
     @property
-- 
2.43.0


From 724e379571ff23138fcee0a93fef96d8a1a5fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 016/231] fix: time vector of a signal has the sampling period
 as spacing

---
 dsptoolbox/classes/signal.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 850d1b8..c7b8db4 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -200,9 +200,7 @@ class Signal(MultichannelData):
     def _generate_time_vector(self):
         """Internal method to generate a time vector on demand."""
         self.__time_vector_update = False
-        self.__time_vector_s = np.linspace(
-            0, len(self.time_data) / self.sampling_rate_hz, len(self.time_data)
-        )
+        self.__time_vector_s = np.arange(len(self.time_data)) / self.sampling_rate_hz
 
     # ======== Properties and setters =========================================
     @property
-- 
2.43.0


From 91e9e34090bdc809f8a04999e2e410bd3d61f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 017/231] fix: refused bands leave the MultiBandSignal
 unchanged

---
 dsptoolbox/classes/multibandsignal.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index e383c41..6a6c77d 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -146,14 +146,14 @@ class MultiBandSignal:
         assert type(new_bands) is list, "bands has to be a list"
         if new_bands:
             # Check length and number of channels
-            self.__number_of_channels = new_bands[0].number_of_channels
+            number_of_channels = new_bands[0].number_of_channels
             sr = []
             complex_data = new_bands[0].time_data_imaginary is not None
             for s in new_bands:
                 assert isinstance(s, Signal), (
                     f"{type(s)} is not a valid " + "band type. Use Signal objects"
                 )
-                assert s.number_of_channels == self.number_of_channels, (
+                assert s.number_of_channels == number_of_channels, (
                     "Signals have different number of channels. This "
                     + "behaviour is not supported"
                 )
@@ -162,15 +162,12 @@ class MultiBandSignal:
                     + "not. This behavior is not supported."
                 )
                 sr.append(s.sampling_rate_hz)
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_bands[0].sampling_rate_hz
-                expected_length_samples = new_bands[0].length_samples
-            else:
-                self.sampling_rate_hz = sr
             # Check sampling rate and duration
             if self.same_sampling_rate:
+                expected_sampling_rate_hz = new_bands[0].sampling_rate_hz
+                expected_length_samples = new_bands[0].length_samples
                 for s in new_bands:
-                    assert s.sampling_rate_hz == self.sampling_rate_hz, (
+                    assert s.sampling_rate_hz == expected_sampling_rate_hz, (
                         "Not all Signals have the same sampling rate. "
                         + "If you wish to create a multirate system, set "
                         + "same_sampling_rate to False"
@@ -180,6 +177,10 @@ class MultiBandSignal:
                         + "This behaviour is not supported if there is a "
                         + "constant sampling rate"
                     )
+                self.sampling_rate_hz = expected_sampling_rate_hz
+            else:
+                self.sampling_rate_hz = sr
+            self.__number_of_channels = number_of_channels
         self.__bands: list[Signal] = new_bands
 
     @property
-- 
2.43.0


From 926199865a3aba2267b6cb77a8d58b581c519d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 018/231] fix: collapsing a MultiBandSignal does not change its
 first band

---
 dsptoolbox/classes/multibandsignal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 6a6c77d..55f5208 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -417,7 +417,7 @@ class MultiBandSignal:
             self.same_sampling_rate
         ), "Collapsing is only available for same sampling rate bands"
         if self.bands[0].time_data_imaginary is None:
-            initial = self.bands[0].time_data
+            initial = self.bands[0].time_data.copy()
             for n in range(1, len(self.bands)):
                 initial += self.bands[n].time_data
         else:
-- 
2.43.0


From 7989926334588c26e41e3f9b08a470b2f70d9b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 019/231] fix: impulse response created from a signal does not
 share its samples

---
 dsptoolbox/classes/impulse_response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 109ebec..8049ba9 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -80,12 +80,11 @@ class ImpulseResponse(Signal):
         """
         ir = ImpulseResponse(
             None,
-            signal.time_data,
+            signal._get_data().copy(),
             signal.sampling_rate_hz,
             signal.constrain_amplitude,
         )
         ir.calibrated_signal = signal.calibrated_signal
-        ir.time_data_imaginary = signal.time_data_imaginary
         return ir
 
     @staticmethod
-- 
2.43.0


From 9e9bdb46228f3ebaf36ba9b4d37c3d9864017cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 020/231] fix: impulse response from time data reports its
 amplitude scale factor

---
 dsptoolbox/classes/impulse_response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 8049ba9..4ad4371 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -132,8 +132,7 @@ class ImpulseResponse(Signal):
         ImpulseResponse
 
         """
-        s = Signal.from_time_data(time_data, sampling_rate_hz, constrain_amplitude)
-        return ImpulseResponse.from_signal(s)
+        return ImpulseResponse(None, time_data, sampling_rate_hz, constrain_amplitude)
 
     def set_window(self, window: NDArray[np.float64]):
         """Sets the window used for the IR.
-- 
2.43.0


From eb8395ecbd374d2bac4cd6f9f3aa3624edd17b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 021/231] fix: framing without padding keeps the last complete
 frame

---
 dsptoolbox/helpers/other.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..c6643cc 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -209,7 +209,7 @@ def _compute_number_frames(
         padding_samples = window_length - int(signal_length % step)
     else:
         padding_samples = 0
-        n_frames = int(np.ceil((signal_length - window_length) / step))
+        n_frames = max((signal_length - window_length) // step + 1, 0)
     return n_frames, padding_samples
 
 
-- 
2.43.0


From cabd8b8d1c8b5111838737a1006b75e4b0b4cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 022/231] fix: padding and trimming keep the imaginary part

---
 dsptoolbox/standard/pad_trim_methods.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index 67fb840..a44ea78 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -30,14 +30,11 @@ def pad_trim(
 
     """
     if isinstance(signal, Signal):
-        new_time_data = np.zeros((desired_length_samples, signal.number_of_channels))
-        for n in range(signal.number_of_channels):
-            new_time_data[:, n] = _pad_trim(
-                signal.time_data[:, n],
-                desired_length_samples,
-                in_the_end=in_the_end,
+        return signal.copy_with_new_time_data(
+            _pad_trim(
+                signal._get_data(), desired_length_samples, in_the_end=in_the_end
             )
-        return signal.copy_with_new_time_data(new_time_data)
+        )
     elif isinstance(signal, MultiBandSignal):
         assert (
             signal.same_sampling_rate
@@ -101,7 +98,7 @@ def modify_signal_length(
             assert len(signal) > -(start_samples + end_samples), "Trimming is too much"
 
         new_sig = signal.copy()
-        td = new_sig.time_data
+        td = new_sig._get_data()
         if start_samples >= 0:
             td = np.pad(td, ((start_samples, 0), (0, 0)))
         else:
@@ -172,7 +169,7 @@ def trim_with_level_threshold(
         stop = signal.length_samples
 
     return (
-        signal.copy_with_new_time_data(signal.time_data[start:stop]),
+        signal.copy_with_new_time_data(signal._get_data()[start:stop]),
         start,
         stop,
     )
@@ -234,7 +231,7 @@ def trim_with_time_selection(
 
         assert end_sample > start_sample, "Invalid time window"
         selection = slice(start_sample, end_sample)
-        return signal.copy_with_new_time_data(signal.time_data[selection, ...])
+        return signal.copy_with_new_time_data(signal._get_data()[selection, ...])
     elif isinstance(signal, MultiBandSignal):
         output = signal.copy()
         for ind in range(signal.number_of_bands):
-- 
2.43.0


From 7303e08b2284ef8fdf6dd8756f923c51565ef2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 023/231] fix: time selection finds the sample at the given
 time and treats zero as a bound

---
 dsptoolbox/standard/pad_trim_methods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index a44ea78..19033a5 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -207,23 +207,23 @@ def trim_with_time_selection(
         assert (
             start_time_s is not None or end_time_s is not None
         ), "At least one bound must be other than None"
-        if start_time_s:
+        if start_time_s is not None:
             assert start_time_s >= 0.0, "Start time must be at least zero"
             assert (
                 start_time_s < signal.length_seconds
             ), "Start time must be less than signal's length"
-            start_sample = int(start_time_s * signal.sampling_rate_hz)
+            start_sample = int(round(start_time_s * signal.sampling_rate_hz, 6))
             if not inclusive:
                 start_sample += 1
         else:
             start_sample = 0
 
-        if end_time_s:
+        if end_time_s is not None:
             assert end_time_s > 0.0, "End time must be greater than 0"
             assert (
                 end_time_s <= signal.length_seconds
             ), "End time must be less than signal length"
-            end_sample = int(end_time_s * signal.sampling_rate_hz)
+            end_sample = int(round(end_time_s * signal.sampling_rate_hz, 6))
             if inclusive:
                 end_sample += 1
         else:
-- 
2.43.0


From 81c39b265ba3e6f0431c658e2c31f748c92ebd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 024/231] fix: appending MultiBandSignals takes every band of
 the first one

---
 dsptoolbox/standard/appending.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/appending.py b/dsptoolbox/standard/appending.py
index 54b93e5..cd293f9 100644
--- a/dsptoolbox/standard/appending.py
+++ b/dsptoolbox/standard/appending.py
@@ -115,7 +115,7 @@ def append_signals(
         signals_without_first = signals.copy()  # Shallow copy
         signals_without_first.pop(0)
         for n in range(signals[0].number_of_bands):
-            new_band = signals[0].bands[0].copy()
+            new_band = signals[0].bands[n].copy()
             for s in signals_without_first:
                 new_band = append_signals(
                     [new_band, s.bands[n]], allow_padding_trimming, at_end
-- 
2.43.0


From 47974610aa55e7dd0cae4aa1cbdb3ebfe54653b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 025/231] fix: integer delay keeps the imaginary part

---
 dsptoolbox/standard/latency_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/latency_delay.py b/dsptoolbox/standard/latency_delay.py
index 3919619..d06087f 100644
--- a/dsptoolbox/standard/latency_delay.py
+++ b/dsptoolbox/standard/latency_delay.py
@@ -330,7 +330,7 @@ def delay(
         ) == len(channels), "There is at least an invalid channel number"
 
         # Copy data
-        new_time_data = sig.time_data
+        new_time_data = sig._get_data()
 
         # Handle delayed and undelayed channels
         channels_not = np.setdiff1d(channels, np.arange(new_time_data.shape[1]))
-- 
2.43.0


From 31a82159a34ea0871035527aa350816239a6d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 026/231] fix: reconstructing a framed signal does not change
 frames and window and has the exact length

---
 dsptoolbox/standard/_framed_signal_representation.py | 7 ++-----
 dsptoolbox/standard/_standard_backend.py             | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index 0d724d6..ae24f28 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -110,12 +110,9 @@ def _reconstruct_framed_signal(
             assert (
                 window.shape[0] == td_framed.shape[0]
             ), "Window length does not match signal length"
-        td_framed *= window[:, np.newaxis, np.newaxis]
+        td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
-    total_length = int(
-        step_size * td_framed.shape[1]
-        + td_framed.shape[0] * (1 - step_size / td_framed.shape[0])
-    )
+    total_length = step_size * (td_framed.shape[1] - 1) + td_framed.shape[0]
     td = np.zeros((total_length, td_framed.shape[-1]))
 
     start = 0
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index bc5d875..837b65b 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -417,7 +417,7 @@ def _get_window_envelope(
 
     """
     if squared:
-        window **= 2
+        window = window**2
     envelope = np.zeros(total_length_samples)
 
     start = 0
-- 
2.43.0


From 14b5788170601dd873aa64465c4b2d31eeae4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 027/231] fix: signals with a single sample are accepted

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index c7b8db4..bd99443 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -251,7 +251,7 @@ class Signal(MultichannelData):
 
         """
         # Shape of Time Data array
-        new_time_data = np.atleast_2d(new_time_data).squeeze()
+        new_time_data = np.atleast_1d(np.atleast_2d(new_time_data).squeeze())
         assert new_time_data.ndim <= 2, (
             f"{new_time_data.ndim} are "
             + "too many dimensions for time data. Dimensions should"
-- 
2.43.0


From e4407b96b1915ef9999ff29752b9afa03715d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 028/231] fix: latencies to the first channel are reported in
 channel order

---
 dsptoolbox/helpers/latency.py            | 12 +++++-------
 dsptoolbox/standard/_standard_backend.py | 15 ++++++---------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/dsptoolbox/helpers/latency.py b/dsptoolbox/helpers/latency.py
index 7473425..f32a97f 100644
--- a/dsptoolbox/helpers/latency.py
+++ b/dsptoolbox/helpers/latency.py
@@ -138,13 +138,11 @@ def _fractional_latency(
 
     """
     if td2 is None:
-        td2_ = td1[:, 0][..., None]
-        td1_ = np.atleast_2d(td1[:, 1:])
-        xcor = correlate(td2_, td1_)
-    else:
-        xcor = np.zeros((td1.shape[0] + td2.shape[0] - 1, td2.shape[1]))
-        for i in range(td2.shape[1]):
-            xcor[:, i] = correlate(td2[:, i], td1[:, i])
+        td2 = np.repeat(td1[:, :1], td1.shape[1] - 1, axis=1)
+        td1 = td1[:, 1:]
+    xcor = np.zeros((td1.shape[0] + td2.shape[0] - 1, td2.shape[1]))
+    for i in range(td2.shape[1]):
+        xcor[:, i] = correlate(td2[:, i], td1[:, i])
     inds = _get_fractional_impulse_peak_index(xcor, polynomial_points)
     return td1.shape[0] - inds - 1
 
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 837b65b..89a6935 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -22,15 +22,12 @@ def _latency(
 
     """
     if in2 is None:
-        in2_ = in1[:, 0][..., None]
-        in1_ = np.atleast_2d(in1[:, 1:])
-        xcorr = correlate(in2_, in1_, mode="full")
-        peak_inds = np.argmax(np.abs(xcorr), axis=0)
-    else:
-        peak_inds = np.zeros(in1.shape[1], dtype=int)
-        for i in range(in1.shape[1]):
-            xcorr = correlate(in2[:, i].flatten(), in1[:, i].flatten())
-            peak_inds[i] = int(np.argmax(np.abs(xcorr)))
+        in2 = np.repeat(in1[:, :1], in1.shape[1] - 1, axis=1)
+        in1 = in1[:, 1:]
+    peak_inds = np.zeros(in1.shape[1], dtype=int)
+    for i in range(in1.shape[1]):
+        xcorr = correlate(in2[:, i].flatten(), in1[:, i].flatten())
+        peak_inds[i] = int(np.argmax(np.abs(xcorr)))
     return in1.shape[0] - peak_inds - 1
 
 
-- 
2.43.0


From ad96c6c1e777baf72569692c46b961aee2655d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 029/231] fix: resampling a signal dropped its imaginary part

---
 dsptoolbox/standard/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/resampling.py b/dsptoolbox/standard/resampling.py
index a096ea1..b40cb26 100644
--- a/dsptoolbox/standard/resampling.py
+++ b/dsptoolbox/standard/resampling.py
@@ -35,7 +35,7 @@ def resample(
         numerator=desired_sampling_rate_hz, denominator=sig.sampling_rate_hz
     )
     u, d = ratio.as_integer_ratio()
-    new_time_data = resample_poly(sig.time_data, up=u, down=d, axis=0)
+    new_time_data = resample_poly(sig._get_data(), up=u, down=d, axis=0)
     new_sig = sig.copy_with_new_time_data(
         new_time_data * (d / u) if rescaling else new_time_data
     )
-- 
2.43.0


From f57e5f5981ad4f2fd17ad024835cc4a32eaa0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 030/231] fix: resampling a filter added the wrong number of
 poles or zeros when some zeros were dropped

---
 dsptoolbox/standard/resampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/resampling.py b/dsptoolbox/standard/resampling.py
index b40cb26..6269ac4 100644
--- a/dsptoolbox/standard/resampling.py
+++ b/dsptoolbox/standard/resampling.py
@@ -73,9 +73,9 @@ def resample_filter(filter: Filter, new_sampling_rate_hz: int) -> Filter:
     z = f * (z - 1) / (z + 1)
 
     if add_to_poles:
-        p = np.hstack([p, [-f] * (len(z) - len(p))])
+        p = np.hstack([p, [-f] * add_to_poles])
     if add_to_zeros:
-        z = np.hstack([z, [-f] * (len(p) - len(z))])
+        z = np.hstack([z, [-f] * add_to_zeros])
 
     k /= np.real(np.prod(f - z) / np.prod(f - p))
 
-- 
2.43.0


From 47e35747aceeb12610041e9fd8b60f5e7a6c838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 031/231] fix: filter_and_resample_signal changed the
 representation of the filter

---
 dsptoolbox/classes/filter.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 5818d95..3499c7c 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -780,12 +780,8 @@ class Filter:
         )
 
         # Check if standard or polyphase representation is to be used
-        if self.is_fir:
-            polyphase = True
-        else:
-            if not hasattr(self, "ba"):
-                self.ba: list = list(sig.sos2tf(self.sos))
-            polyphase = False
+        polyphase = self.is_fir
+        ba = self.get_coefficients(FilterCoefficientsType.Ba)
 
         # Check if down- or upsampling is required
         if fraction[0] == 1:
@@ -795,7 +791,7 @@ class Filter:
             new_time_data = _filter_and_downsample(
                 time_data=signal.time_data,
                 down_factor=fraction[1],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
         elif fraction[1] == 1:
@@ -806,7 +802,7 @@ class Filter:
             new_time_data = _filter_and_upsample(
                 time_data=signal.time_data,
                 up_factor=fraction[0],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
 
-- 
2.43.0


From 4b34a02128507c223909d00ccd5c975ffb8027fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 032/231] fix: polyphase resampling shifted or truncated the
 signal depending on the lengths

---
 dsptoolbox/classes/filter_helpers.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 004644c..23bd1be 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -9,6 +9,7 @@ from numpy.typing import NDArray
 
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
+from ..helpers.other import _pad_trim
 from ..helpers.polyphase import _polyphase_decomposition
 from ..standard.enums import BiquadEqType, FilterBankMode
 
@@ -538,6 +539,11 @@ def _filter_and_downsample(
     assert time_data.ndim == 2, "Shape for time data should be (time samples, channels)"
 
     if polyphase:
+        # Complete the last frame in the end so that the samples kept do not
+        # depend on the length of the signal
+        time_data = _pad_trim(
+            time_data, -(-time_data.shape[0] // down_factor) * down_factor
+        )
         poly, _ = _polyphase_decomposition(time_data, down_factor, flip=False)
         # (time samples, polyphase components, channels)
         # Polyphase representation of filter and filter length
@@ -556,9 +562,8 @@ def _filter_and_downsample(
                 )
             new_time_data[:, ch] = temp
         # Take correct values from vector
-        new_time_data = new_time_data[
-            half_length // down_factor : -half_length // down_factor, :
-        ]
+        start = half_length // down_factor
+        new_time_data = _pad_trim(new_time_data[start:, :], poly.shape[0])
     else:
         new_time_data = sig.lfilter(
             ba_coefficients[0], ba_coefficients[1], x=time_data, axis=0
@@ -631,12 +636,10 @@ def _filter_and_upsample(
                 )
 
         # Take right samples from filtered signal
-        if padding == up_factor:
-            new_time_data = new_time_data[half_length:-half_length, :]
-        else:
-            new_time_data = new_time_data[
-                half_length + padding : -half_length + padding, :
-            ]
+        start = half_length + padding % up_factor
+        new_time_data = _pad_trim(
+            new_time_data[start:, :], time_data.shape[0] * up_factor
+        )
     else:
         new_time_data = np.zeros((time_data.shape[0] * up_factor, time_data.shape[1]))
         new_time_data[::up_factor] = time_data * up_factor
-- 
2.43.0


From 8c6d8f2d949f0b9abdbda5ece3a8b6072406dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 033/231] fix: time vector ends at the length of the signal in
 seconds again

This reverts commit 724e379.
---
 dsptoolbox/classes/signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index bd99443..562ccd6 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -200,7 +200,9 @@ class Signal(MultichannelData):
     def _generate_time_vector(self):
         """Internal method to generate a time vector on demand."""
         self.__time_vector_update = False
-        self.__time_vector_s = np.arange(len(self.time_data)) / self.sampling_rate_hz
+        self.__time_vector_s = np.linspace(
+            0, len(self.time_data) / self.sampling_rate_hz, len(self.time_data)
+        )
 
     # ======== Properties and setters =========================================
     @property
-- 
2.43.0


From 2c0e73ed3395e33fc2e9a974ecc70fca07fbbb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 034/231] fix: loudness uses the same blocks as before again

This reverts commit eb8395e.
---
 dsptoolbox/helpers/other.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index c6643cc..9964ce1 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -209,7 +209,7 @@ def _compute_number_frames(
         padding_samples = window_length - int(signal_length % step)
     else:
         padding_samples = 0
-        n_frames = max((signal_length - window_length) // step + 1, 0)
+        n_frames = int(np.ceil((signal_length - window_length) / step))
     return n_frames, padding_samples
 
 
-- 
2.43.0


From 7b6052eb3c0a41770459167ae1910f141efa84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 035/231] fix: filter states are kept per channel between
 blocks

---
 dsptoolbox/classes/filter_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 23bd1be..cef532a 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -283,6 +283,7 @@ def _filter_on_signal(
         zi_new = []
         for n in range(signal.number_of_channels):
             zi_new.append(zi[:, :, n])
+        zi = zi_new
     return new_signal, zi
 
 
@@ -380,6 +381,7 @@ def _filter_on_signal_ba(
         zi_new = []
         for n in range(zi.shape[1]):
             zi_new.append(zi[:, n])
+        zi = zi_new
     return new_signal, zi
 
 
@@ -495,7 +497,7 @@ def _lfilter_fir(
     # Use zi's and take zf's
     if zi is not None:
         y[: zi.shape[0], :] += zi
-        zf = y[-zi.shape[0] :, :]
+        zf = y[y.shape[0] - zi.shape[0] :, :]
 
     # Trim output
     y = y[: x.shape[0], :]
-- 
2.43.0


From 3180129bb21586175b688fa670acadfcb15ea902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 036/231] fix: filtering a complex signal dropped its imaginary
 part

---
 dsptoolbox/classes/filter_helpers.py | 30 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index cef532a..74d1457 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -244,11 +244,14 @@ def _filter_on_signal(
 
     """
     # Time Data
-    new_time_data = signal.time_data.copy()
+    time_data = signal._get_data()
+    new_time_data = time_data.copy()
 
     # zi unpacking
     if zi is not None:
         zi = np.moveaxis(np.asarray(zi), 0, -1)
+        if np.iscomplexobj(time_data):
+            zi = zi.astype(np.complex128)
 
     # Channels
     if channels is None:
@@ -257,13 +260,13 @@ def _filter_on_signal(
     # Filtering
     if zi is not None:
         y, zi[:, :, channels] = sig.sosfilt(
-            sos, signal.time_data[:, channels], zi=zi[:, :, channels], axis=0
+            sos, time_data[:, channels], zi=zi[:, :, channels], axis=0
         )
     else:
         if zero_phase:
-            y = sig.sosfiltfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfiltfilt(sos, time_data[:, channels], axis=0)
         else:
-            y = sig.sosfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfilt(sos, time_data[:, channels], axis=0)
 
     # Check for complex output
     if np.iscomplexobj(y):
@@ -338,11 +341,14 @@ def _filter_on_signal_ba(
         lfilter = sig.lfilter
 
     # Time Data
-    new_time_data = signal.time_data.copy()
+    time_data = signal._get_data()
+    new_time_data = time_data.copy()
 
     # zi unpacking
     if zi is not None:
         zi = np.asarray(zi).T
+        if np.iscomplexobj(time_data):
+            zi = zi.astype(np.complex128)
 
     # Channels
     if channels is None:
@@ -353,15 +359,15 @@ def _filter_on_signal_ba(
         y, zi[:, channels] = lfilter(
             ba[0],
             a=ba[1],
-            x=signal.time_data[:, channels],
+            x=time_data[:, channels],
             zi=zi[:, channels],
             axis=0,
         )
     else:
         if zero_phase:
-            y = sig.filtfilt(b=ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = sig.filtfilt(b=ba[0], a=ba[1], x=time_data[:, channels], axis=0)
         else:
-            y = lfilter(ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = lfilter(ba[0], a=ba[1], x=time_data[:, channels], axis=0)
 
     # Check for complex output
     if np.iscomplexobj(y):
@@ -440,15 +446,13 @@ def _filterbank_on_signal(
                 )
             return out_sig
         case FilterBankMode.Summed:
-            new_time_data = np.zeros(
-                (signal.time_data.shape[0], signal.number_of_channels, n_filt)
-            )
+            new_time_data = []
             for n in range(n_filt):
                 s = filters[n].filter_signal(
                     signal, activate_zi=activate_zi, zero_phase=zero_phase
                 )
-                new_time_data[:, :, n] = s.time_data
-            new_time_data = np.sum(new_time_data, axis=-1)
+                new_time_data.append(s._get_data())
+            new_time_data = np.sum(new_time_data, axis=0)
             return signal.copy_with_new_time_data(new_time_data)
         case _:
             raise ValueError("Invalid filter bank apply mode")
-- 
2.43.0


From 86725568bde7beac422ea75c234e34235974ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 037/231] fix: summed filter bank output of constrained signals
 is the sum of the filters' outputs

---
 dsptoolbox/classes/filter_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 74d1457..46da63a 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -451,7 +451,7 @@ def _filterbank_on_signal(
                 s = filters[n].filter_signal(
                     signal, activate_zi=activate_zi, zero_phase=zero_phase
                 )
-                new_time_data.append(s._get_data())
+                new_time_data.append(s._get_data() / s.amplitude_scale_factor)
             new_time_data = np.sum(new_time_data, axis=0)
             return signal.copy_with_new_time_data(new_time_data)
         case _:
-- 
2.43.0


From 8621775bea79accf6fb1d8f4fda52ca784c9bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 038/231] fix: transfer function of a summed filter bank
 started at one

---
 dsptoolbox/classes/filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 31e200f..8b55380 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -646,7 +646,7 @@ class FilterBank:
                 for ind, f in enumerate(self.filters):
                     h *= f.get_transfer_function(frequency_vector_hz)
             case FilterBankMode.Summed:
-                h = np.ones(len(frequency_vector_hz), dtype=np.complex128)
+                h = np.zeros(len(frequency_vector_hz), dtype=np.complex128)
                 for ind, f in enumerate(self.filters):
                     h += f.get_transfer_function(frequency_vector_hz)
             case _:
-- 
2.43.0


From 51e0f7bc3c695308d74a2244f7c76797e04782b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 039/231] fix: filters own their coefficients

---
 dsptoolbox/classes/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 3499c7c..8772641 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -560,7 +560,7 @@ class Filter:
         assert isinstance(sos, np.ndarray)
         assert sos.ndim == 2
         assert sos.shape[1] == 6
-        self.__sos = sos
+        self.__sos = sos.copy()
 
     @property
     def has_sos(self) -> bool:
@@ -615,7 +615,7 @@ class Filter:
             If new_zpk cannot be converted to a list.
 
         """
-        self.__zpk = list(new_zpk)
+        self.__zpk = deepcopy(list(new_zpk))
 
     @property
     def order(self):
-- 
2.43.0


From cbd966fedcff483a7342ed8ef0b9e1b989c2ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 040/231] fix: second-order sections of a filter with leading
 zeros in b keep the delay

---
 dsptoolbox/classes/filter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 8772641..cf6079c 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -943,7 +943,12 @@ class Filter:
                 return self.sos.copy()
             if self.order > 500:
                 warn("Order is above 500. Computing SOS might take a " + "long time")
-            return sig.tf2sos(self.ba[0], self.ba[1])
+            b, a = self.ba
+            # Leading zeros of b are a delay, which zeros and poles do not
+            # contain
+            delay = len(b) - len(np.trim_zeros(b, "f")) if np.any(b) else 0
+            sos = sig.tf2sos(b[delay:], a)
+            return np.vstack([sos] + [[0.0, 1.0, 0.0, 1.0, 0.0, 0.0]] * delay)
         elif coefficients_mode == FilterCoefficientsType.Ba:
             if self.has_sos:
                 return sig.sos2tf(self.sos)
-- 
2.43.0


From 9e47cacbd90852c20d7ae8ae89579e7d59d1cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 041/231] fix: zero-phase impulse responses had no room before
 the impulse

---
 dsptoolbox/classes/filter.py     | 4 +++-
 dsptoolbox/classes/filterbank.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index cf6079c..b86881b 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -842,7 +842,9 @@ class Filter:
             )
 
         # IIR or zero phase IR
-        ir_filt = _impulse(length_samples)
+        # For zero phase, the impulse is in the middle since its response is
+        # symmetrical
+        ir_filt = _impulse(length_samples, length_samples // 2 if zero_phase else 0)
         ir_filt = ImpulseResponse(
             None,
             ir_filt,
diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 8b55380..b3845af 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -578,7 +578,7 @@ class FilterBank:
             for ind, f in enumerate(self.filters):
                 d = dirac(
                     length_samples,
-                    delay_samples=0,
+                    delay_samples=length_samples // 2 if zero_phase else 0,
                     sampling_rate_hz=sr[ind],
                     number_of_channels=1,
                 )
@@ -603,6 +603,7 @@ class FilterBank:
         # Impulse
         d = dirac(
             length_samples=length_samples,
+            delay_samples=length_samples // 2 if zero_phase else 0,
             number_of_channels=1,
             sampling_rate_hz=fs_hz,
         )
@@ -713,6 +714,7 @@ class FilterBank:
         # Impulse
         d = dirac(
             length_samples=length_samples,
+            delay_samples=length_samples // 2 if zero_phase else 0,
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
-- 
2.43.0


From 42ba05d19a19ca68456598dc6dfcde91c601c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 042/231] fix: impulse responses of filter banks were
 normalized when exceeding 0 dBFS

---
 dsptoolbox/classes/filterbank.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index b3845af..7f6a387 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -582,6 +582,7 @@ class FilterBank:
                     sampling_rate_hz=sr[ind],
                     number_of_channels=1,
                 )
+                d.constrain_amplitude = False
                 mb.add_band(f.filter_signal(d, zero_phase=zero_phase))
             return mb
 
@@ -607,6 +608,7 @@ class FilterBank:
             number_of_channels=1,
             sampling_rate_hz=fs_hz,
         )
+        d.constrain_amplitude = False
 
         # Filtering
         ir = self.filter_signal(d, mode, zero_phase=zero_phase)
@@ -718,6 +720,7 @@ class FilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
 
         # Filtering and plot
         if mode == FilterBankMode.Parallel:
@@ -854,6 +857,7 @@ class FilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
 
         # Plot
         if mode == FilterBankMode.Parallel:
@@ -958,6 +962,7 @@ class FilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
 
         # Plot
         if mode == FilterBankMode.Parallel:
-- 
2.43.0


From db29044894bcc3e7a7f575fdb2aa55771fc721b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 043/231] fix: allpass states of Linkwitz-Riley filter bank
 were shared between crossovers

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a2b65dc..3b3b96b 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -207,7 +207,7 @@ class LRFilterBank:
                     allp_zi_l = sosfilt_zi(self.sos[i2][0])  # Low band
                     allp_zi_h = sosfilt_zi(self.sos[i2][1])  # High band
                     al.append([allp_zi_l, allp_zi_h])
-                    allpass_zi.append(al)
+                allpass_zi.append(al)
             self.channels_zi.append([cross_zi, allpass_zi])
 
     # ======== Filtering ======================================================
-- 
2.43.0


From 33935a6c027db1499ee03d49850ec3fe86b91aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 044/231] fix: Linkwitz-Riley filter bank dropped the imaginary
 part

---
 dsptoolbox/filterbanks/_filterbank.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 3b3b96b..7d059ba 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -252,10 +252,11 @@ class LRFilterBank:
         assert not (
             activate_zi and zero_phase
         ), "Zero phase filtering and activating zi is a valid setting"
+        in_sig = s._get_data().copy()
         new_time_data = np.zeros(
-            (s.time_data.shape[0], s.number_of_channels, self.number_of_bands)
+            (s.time_data.shape[0], s.number_of_channels, self.number_of_bands),
+            dtype=in_sig.dtype,
         )
-        in_sig = s.time_data.copy()
 
         # Filter with zi
         if activate_zi:
-- 
2.43.0


From 294771f6452a2ebf4da4eb064afc48a3d7371ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 045/231] fix: summed and downsampled output of crossovers
 failed for odd lengths

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 7d059ba..089f104 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1255,7 +1255,7 @@ def _crossover_downsample(
         return out_sig
     new_time_data = np.zeros(
         (
-            signal.time_data.shape[0] // down_factor,
+            -(-signal.time_data.shape[0] // down_factor),
             signal.number_of_channels,
             n_filt,
         )
-- 
2.43.0


From bf5f6cc4120f50157c6025b5d256589ad0f9f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 046/231] fix: crossovers refuse keeping states with
 downsampling instead of ignoring it

---
 dsptoolbox/filterbanks/_filterbank.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 089f104..a660ff6 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -913,8 +913,7 @@ class BaseCrossover(FilterBank):
             signal.sampling_rate_hz == self.sampling_rate_hz
         ), "Sampling rates do not match"
         if activate_zi:
-            if len(self.filters[0].zi) != signal.number_of_channels:
-                self.initialize_zi(signal.number_of_channels)
+            raise NotImplementedError("No filter states with downsampling")
         new_sig = _crossover_downsample(signal, self.filters, mode=mode, down_factor=2)
         return new_sig
 
-- 
2.43.0


From 9c3b2ec2e84becaeea2383125e65d7db59e2e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 047/231] fix: filtering and resampling dropped the imaginary
 part

---
 dsptoolbox/classes/filter.py         |  4 ++--
 dsptoolbox/classes/filter_helpers.py | 17 ++++++++++++-----
 dsptoolbox/helpers/polyphase.py      |  2 +-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index b86881b..b5891d2 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -789,7 +789,7 @@ class Filter:
                 signal.sampling_rate_hz == self.sampling_rate_hz
             ), "Sampling rates do not match"
             new_time_data = _filter_and_downsample(
-                time_data=signal.time_data,
+                time_data=signal._get_data(),
                 down_factor=fraction[1],
                 ba_coefficients=ba,
                 polyphase=polyphase,
@@ -800,7 +800,7 @@ class Filter:
                 + """sampling rate of the filter should match the output's"""
             )
             new_time_data = _filter_and_upsample(
-                time_data=signal.time_data,
+                time_data=signal._get_data(),
                 up_factor=fraction[0],
                 ba_coefficients=ba,
                 polyphase=polyphase,
diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 46da63a..500ddf7 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -556,12 +556,15 @@ def _filter_and_downsample(
         b = ba_coefficients[0]
         half_length = (len(b) - 1) // 2
         b_poly, _ = _polyphase_decomposition(b, down_factor, flip=True)
-        new_time_data = np.zeros((poly.shape[0] + b_poly.shape[0] - 1, poly.shape[2]))
+        dtype = np.result_type(poly, b_poly, np.float64)
+        new_time_data = np.zeros(
+            (poly.shape[0] + b_poly.shape[0] - 1, poly.shape[2]), dtype=dtype
+        )
         # Accumulator for each channel – it would be better to find a way
         # to do it without loops, but using scipy.signal.convolve since it
         # is advantageous compared to numpy.convolve
         for ch in range(poly.shape[2]):
-            temp = np.zeros(new_time_data.shape[0])
+            temp = np.zeros(new_time_data.shape[0], dtype=dtype)
             for n in range(poly.shape[1]):
                 temp += sig.oaconvolve(
                     poly[:, n, ch], b_poly[:, n, 0], mode="full", axes=0
@@ -623,14 +626,15 @@ def _filter_and_upsample(
 
         # Decompose filter
         b_poly, padding = _polyphase_decomposition(b, up_factor)
-        b_poly *= up_factor
+        b_poly = b_poly * up_factor
 
         # Accumulator – Length is not right!
         new_time_data = np.zeros(
             (
                 (time_data.shape[0] + b_poly.shape[0] - 1) * up_factor,
                 time_data.shape[1],
-            )
+            ),
+            dtype=np.result_type(time_data, b_poly, np.float64),
         )
 
         # Interpolate per channel and per polyphase component – should be
@@ -647,7 +651,10 @@ def _filter_and_upsample(
             new_time_data[start:, :], time_data.shape[0] * up_factor
         )
     else:
-        new_time_data = np.zeros((time_data.shape[0] * up_factor, time_data.shape[1]))
+        new_time_data = np.zeros(
+            (time_data.shape[0] * up_factor, time_data.shape[1]),
+            dtype=time_data.dtype,
+        )
         new_time_data[::up_factor] = time_data * up_factor
         new_time_data = sig.lfilter(
             ba_coefficients[0], ba_coefficients[1], x=new_time_data, axis=0
diff --git a/dsptoolbox/helpers/polyphase.py b/dsptoolbox/helpers/polyphase.py
index 0a0bf10..578331d 100644
--- a/dsptoolbox/helpers/polyphase.py
+++ b/dsptoolbox/helpers/polyphase.py
@@ -48,7 +48,7 @@ def _polyphase_decomposition(
     if remainder != 0:
         in_sig = _pad_trim(in_sig, in_sig.shape[0] + padding, axis=0, in_the_end=False)
     # Here (time samples, polyphase, channels)
-    poly = np.zeros((in_sig.shape[0] // n, n, in_sig.shape[1]))
+    poly = np.zeros((in_sig.shape[0] // n, n, in_sig.shape[1]), dtype=in_sig.dtype)
     for ind in range(n):
         poly[:, ind, :] = in_sig[ind::n, :]
     if flip:
-- 
2.43.0


From e7e5bd06acbdef43e5792764949db38a2970feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 048/231] fix: order of filters with second-order sections is
 an integer so that their filter banks extend too short impulse responses

---
 dsptoolbox/classes/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index b5891d2..73b7e33 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -633,7 +633,7 @@ class Filter:
             n_first_order_sos = np.sum(
                 (self.sos[:, 2] == 0.0) & (self.sos[:, 5] == 0.0)
             )
-            return self.sos.shape[0] * 2 - n_first_order_sos
+            return int(self.sos.shape[0] * 2 - n_first_order_sos)
         if hasattr(self, "ba"):
             return max(len(self.ba[0]), len(self.ba[1])) - 1
         raise ValueError("No order found")
-- 
2.43.0


From 6b42ece68e15c8e44ba69b15bb47bad8f248effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 049/231] fix: refused filters leave the filter bank unchanged

---
 dsptoolbox/classes/filterbank.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 7f6a387..8cdcf01 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -223,21 +223,21 @@ class FilterBank:
             new_filters = list(new_filters)
         assert type(new_filters) is list, "Filters have to be passed as a list"
         if new_filters:
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
-            else:
-                sr = []
-                for f in new_filters:
-                    sr.append(f.sampling_rate_hz)
-                self.sampling_rate_hz = sr
             for ind, f in enumerate(new_filters):
                 assert (
                     type(f) is Filter
                 ), f"Object at index {ind} is not a supported Filter"
                 if self.same_sampling_rate:
                     assert (
-                        f.sampling_rate_hz == self.sampling_rate_hz
+                        f.sampling_rate_hz == new_filters[0].sampling_rate_hz
                     ), "Sampling rates do not match"
+            if self.same_sampling_rate:
+                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
+            else:
+                sr = []
+                for f in new_filters:
+                    sr.append(f.sampling_rate_hz)
+                self.sampling_rate_hz = sr
         self.__filters = new_filters
 
     @property
-- 
2.43.0


From a75816c099a95eb3bfe5ad8c6571032914207597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 050/231] fix: RMS values include the mean of the signal

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index b788795..be5a327 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -21,7 +21,7 @@ def _rms(x: NDArray[np.float64]) -> float | NDArray[np.float64]:
     """
     single_dim = x.ndim == 1
     x = x[..., None] if single_dim else x
-    rms_vals = np.std(x, axis=0)
+    rms_vals = np.mean(x**2.0, axis=0) ** 0.5
     return rms_vals[..., 0] if single_dim else rms_vals
 
 
-- 
2.43.0


From c22676d9ccee168df010627cf3f4a75bc0852b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 051/231] fix: gain, normalization, fading, detrending, dither
 and calibration dropped or did not scale the imaginary part

---
 dsptoolbox/classes/calibration_data.py |  4 ++--
 dsptoolbox/helpers/gain_and_level.py   |  4 ++--
 dsptoolbox/standard/gain_and_level.py  | 12 +++++-------
 dsptoolbox/standard/other.py           | 26 ++++++++++++++++----------
 4 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index b026879..e6ab201 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -163,13 +163,13 @@ class CalibrationData:
         if isinstance(signal, Signal):
             calibrated_signal = signal.copy()
             calibrated_signal.constrain_amplitude = False
-            calibrated_signal.time_data *= calibration_factors
+            calibrated_signal.time_data = signal._get_data() * calibration_factors
             calibrated_signal.calibrated_signal = True
         elif isinstance(signal, MultiBandSignal):
             calibrated_signal = signal.copy()
             for b in calibrated_signal:
                 b.constrain_amplitude = False
-                b.time_data *= calibration_factors
+                b.time_data = b._get_data() * calibration_factors
                 b.calibrated_signal = True
         else:
             raise TypeError(
diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index be5a327..1ccf5f1 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -76,9 +76,9 @@ def _normalize(
 
     factor = from_db(dbfs, True)
     if peak_normalization:
-        factor /= np.max(np.abs(s), axis=0 if per_channel else None)
+        factor /= np.max(np.abs(np.real(s)), axis=0 if per_channel else None)
     else:
-        factor /= _rms(s if per_channel else s.flatten())
+        factor /= _rms(np.real(s if per_channel else s.flatten()))
     s_norm = s * factor
 
     return s_norm[..., 0] if onedim else s_norm
diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index f5a065d..cf0bb88 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -45,7 +45,7 @@ def normalize(
     """
     if isinstance(sig, Signal):
         return sig.copy_with_new_time_data(
-            _normalize(sig.time_data, norm_dbfs, peak_normalization, each_channel)
+            _normalize(sig._get_data(), norm_dbfs, peak_normalization, each_channel)
         )
     elif isinstance(sig, MultiBandSignal):
         new_sig = sig.copy()
@@ -96,9 +96,10 @@ def fade(
         length_fade_seconds < sig.time_vector_s[-1]
     ), "Fade length should not be longer than the signal itself"
 
-    new_time_data = np.empty_like(sig.time_data)
+    time_data = sig._get_data()
+    new_time_data = np.empty_like(time_data)
     for n in range(sig.number_of_channels):
-        vec = sig.time_data[:, n].copy()
+        vec = time_data[:, n].copy()
         if at_start:
             new_time_data[:, n] = _fade(
                 vec,
@@ -323,10 +324,7 @@ def apply_gain(
         gain_linear = from_db(np.atleast_1d(gain_db), True)
         if len(gain_linear) == 1:
             gain_linear = gain_linear[0]
-        new_sig = target.copy_with_new_time_data(target.time_data * gain_linear)
-        if new_sig.is_complex_signal:
-            new_sig.time_data_imaginary *= gain_linear
-        return new_sig
+        return target.copy_with_new_time_data(target._get_data() * gain_linear)
     elif isinstance(target, MultiBandSignal):
         new_mb = target.copy()
         for ind in range(new_mb.number_of_bands):
diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index c233078..7a0fabc 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -201,7 +201,7 @@ def detrend(
     if isinstance(sig, Signal):
         assert polynomial_order >= 0, "Polynomial order should be positive"
         return sig.copy_with_new_time_data(
-            _detrend(sig.time_data.copy(), polynomial_order)
+            _detrend(sig._get_data().copy(), polynomial_order)
         )
     elif isinstance(sig, MultiBandSignal):
         detrended_sig = sig.copy()
@@ -342,26 +342,32 @@ def dither(
     """
     shape = s.time_data.shape
 
-    if not triangular_distribution:
-        noise = np.random.uniform(-epsilon / 2, epsilon / 2, size=shape)
-    else:
-        noise = np.random.uniform(
+    def get_noise():
+        if not triangular_distribution:
+            return np.random.uniform(-epsilon / 2, epsilon / 2, size=shape)
+        return np.random.uniform(
             -epsilon / 2, epsilon / 2, size=shape
         ) + np.random.uniform(-epsilon / 2, epsilon / 2, size=shape)
 
+    noise = get_noise()
+    if s.is_complex_signal:
+        noise = noise + 1j * get_noise()
+
     if noise_shaping_filterbank is not None:
         noise_s = Signal(None, noise, s.sampling_rate_hz)
         noise_s = noise_shaping_filterbank.filter_signal(
             noise_s, mode=FilterBankMode.Sequential
         )
-        noise = noise_s.time_data
+        noise = noise_s._get_data()
 
+    dithered = s._get_data() + noise
     if truncate:
-        return s.copy_with_new_time_data(
-            (s.time_data + noise).astype(np.float16).astype(np.float64)
-        )
+        truncated = np.real(dithered).astype(np.float16).astype(np.float64)
+        if s.is_complex_signal:
+            truncated = truncated + 1j * np.imag(dithered).astype(np.float16)
+        dithered = truncated
 
-    return s.copy_with_new_time_data(s.time_data + noise)
+    return s.copy_with_new_time_data(dithered)
 
 
 def merge_filters(filters: list[Filter] | FilterBank) -> Filter:
-- 
2.43.0


From 7e72fe89c3e6fdeee19ad80361d8e93003082530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 052/231] fix: calibration from a recording with low SNR failed

---
 dsptoolbox/classes/calibration_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index e6ab201..5b0288e 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -2,6 +2,7 @@ import numpy as np
 from numpy.typing import NDArray
 
 from ..standard import append_signals, rms
+from ..standard.enums import SpectrumMethod, SpectrumScaling
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
 
@@ -116,10 +117,11 @@ class CalibrationData:
             self.__update = False
 
     def _get_rms_from_spectrum(self):
-        self.calibration_signal.set_spectrum_parameters(
-            method="standard", scaling="amplitude spectrum"
+        calibration_signal = self.calibration_signal.copy()
+        calibration_signal.set_spectrum_parameters(
+            method=SpectrumMethod.FFT, scaling=SpectrumScaling.AmplitudeSpectrum
         )
-        f, sp = self.calibration_signal.get_spectrum()
+        f, sp = calibration_signal.get_spectrum()
         ind1k = np.argmin(np.abs(f - 1e3))
         return np.abs(sp[ind1k, :])
 
-- 
2.43.0


From b7d76ebd51dcf325326a5e687de910fc500f59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 053/231] fix: without any activity or noise the detector
 returned a signal without channels

---
 dsptoolbox/standard/other.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index 7a0fabc..eea30a9 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -153,24 +153,22 @@ def activity_detector(
     detected_sig.clear_time_window()
     noise.clear_time_window()
 
-    try:
+    if np.any(signal_indices):
         detected_sig.time_data = signal.time_data[signal_indices, 0]
-    except ValueError as e:
+    else:
         warn(
             "No detected activity, threshold might be too high. Detected "
             + "signal will be a vector filled with zeroes"
         )
-        print("Numpy error: ", e)
         detected_sig.time_data = np.zeros(500)
 
-    try:
+    if np.any(noise_indices):
         noise.time_data = signal.time_data[noise_indices, 0]
-    except ValueError as e:
+    else:
         warn(
             "No detected noise, threshold might be too low. Noise will be "
             + "a vector filled with zeroes"
         )
-        print("Numpy error: ", e)
         noise.time_data = np.zeros(500)
 
     others = dict(
-- 
2.43.0


From 35c84471ec3bf88fcdf67445bc83794fc7f608a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 054/231] fix: activity detector always used the release time

---
 dsptoolbox/standard/_standard_backend.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 89a6935..d45dc7c 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -362,12 +362,11 @@ def _indices_above_threshold_dbfs(
 
     momentary_gain = np.zeros(len(time_power), dtype=np.float64)
     for i in np.arange(1, len(time_power)):
-        if momentary_gain[i] > time_power[i - 1]:
-            coeff = attack_smoothing_coeff
-        elif momentary_gain[i] < time_power[i - 1]:
-            coeff = release_smoothing_coeff
-        else:
-            coeff = 0
+        coeff = (
+            attack_smoothing_coeff
+            if time_power[i] > momentary_gain[i - 1]
+            else release_smoothing_coeff
+        )
         momentary_gain[i] = coeff * time_power[i] + (1 - coeff) * momentary_gain[i - 1]
     momentary_gain = 10.0 * np.log10(momentary_gain)
 
-- 
2.43.0


From 837e301e3aead4521429e93c088ce070e7c5848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 055/231] fix: computing loudness reset the amplitude scale
 factor of the signal

---
 dsptoolbox/standard/gain_and_level.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index cf0bb88..a42a5cd 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -263,10 +263,9 @@ def lufs_integrated(s: Signal) -> float:
     DIFF_GAMMA_R = 10
 
     # Filter handling amplitude
-    constrained = s.constrain_amplitude
-    s.constrain_amplitude = False
-    s_prefiltered = k_filter.filter_signal(s)
-    s.constrain_amplitude = constrained
+    s_unconstrained = s.copy()
+    s_unconstrained.constrain_amplitude = False
+    s_prefiltered = k_filter.filter_signal(s_unconstrained)
 
     # Compute blocks
     z_ji = np.mean(
-- 
2.43.0


From 9b9157d55140a2e50530f1f4ae8332292c587a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 056/231] fix: calibration from a recording with low SNR reads
 the level without zero-padding

---
 dsptoolbox/classes/calibration_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index 5b0288e..693c87e 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -119,7 +119,10 @@ class CalibrationData:
     def _get_rms_from_spectrum(self):
         calibration_signal = self.calibration_signal.copy()
         calibration_signal.set_spectrum_parameters(
-            method=SpectrumMethod.FFT, scaling=SpectrumScaling.AmplitudeSpectrum
+            method=SpectrumMethod.FFT,
+            scaling=SpectrumScaling.AmplitudeSpectrum,
+            smoothing=0,
+            pad_to_fast_length=False,
         )
         f, sp = calibration_signal.get_spectrum()
         ind1k = np.argmin(np.abs(f - 1e3))
-- 
2.43.0


From 81f61568045f113b8e400a9df66103d0da1b9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 057/231] fix: crest factors of MultiBandSignals were converted
 to dB twice

---
 dsptoolbox/standard/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index a42a5cd..93a4fcf 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -390,7 +390,7 @@ def crest_factor(
     elif isinstance(sig, MultiBandSignal):
         crest = np.zeros((sig.number_of_bands, sig.number_of_channels))
         for ind, b in enumerate(sig):
-            crest[ind, :] = crest_factor(b, in_db, use_true_peak)
+            crest[ind, :] = crest_factor(b, False, use_true_peak)
     else:
         raise TypeError(
             "Passed signal should be either a Signal or " + "MultiBandSignal type"
-- 
2.43.0


From 1fae9c58577812f1f4ac2148b218ab50a5ebbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 058/231] fix: real-time FIR and IIR filters with a single
 coefficient failed

---
 dsptoolbox/classes/fir_filter_realtime.py | 2 ++
 dsptoolbox/classes/iir_filter_realtime.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index cb3a2f6..1eb5465 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -59,6 +59,8 @@ class FIRFilter(RealtimeFilter):
     def process_sample(self, x: float, channel: int):
         """Process a sample."""
         y = self.b[0] * x
+        if self.order == 0:
+            return y
 
         write_index = self.current_state_ind[channel]
         for i in range(self.order):
diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index b30fced..5e48e7b 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -51,7 +51,7 @@ class IIRFilter(RealtimeFilter):
         return IIRFilter(b, a)
 
     def set_n_channels(self, n_channels: int):
-        self.state = np.zeros((self.order, n_channels))
+        self.state = np.zeros((max(self.order, 1), n_channels))
 
     def reset_state(self):
         self.state.fill(0.0)
-- 
2.43.0


From c4f26db6b834b30a06122916005667097ba40041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 059/231] fix: real-time IIR filter normalized the coefficients
 passed to it in place

---
 dsptoolbox/classes/iir_filter_realtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index 5e48e7b..003540a 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -24,8 +24,8 @@ class IIRFilter(RealtimeFilter):
             Denominator coefficients
 
         """
-        b /= a[0]
-        a /= a[0]
+        b = b / a[0]
+        a = a / a[0]
         self.order = max(len(b), len(a)) - 1
         self.b = np.pad(b, ((0, self.order + 1 - len(b))))
         self.a = np.pad(a, ((0, self.order + 1 - len(a))))
-- 
2.43.0


From 06dea17075868660d9e1e3b8ea7a91379a5416fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 060/231] fix: overlap-save filter gave wrong samples for odd
 FFT lengths

---
 dsptoolbox/classes/fir_filter_realtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 1eb5465..01351d5 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -137,9 +137,9 @@ class FIRFilterOverlapSave(RealtimeFilter):
 
         """
         self.buffer[-self.blocksize :, channel] = block
-        output_data = fft.irfft(fft.rfft(self.buffer[:, channel]) * self.fir_spectrum)[
-            -self.blocksize :
-        ]
+        output_data = fft.irfft(
+            fft.rfft(self.buffer[:, channel]) * self.fir_spectrum, n=self.total_length
+        )[-self.blocksize :]
 
         # Roll buffer
         self.buffer[: -self.blocksize, channel] = self.buffer[self.blocksize :, channel]
-- 
2.43.0


From 53e10ef082927f5a03304f014537413c80b85439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 061/231] fix: channels of the partitioned convolution shared
 one position in the partition buffer

---
 dsptoolbox/classes/fir_filter_realtime.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 01351d5..cf56bd8 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -200,8 +200,8 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
             partitioned[: len(partition), n] = partition
         self.partitioned_spectrum = fft.rfft(partitioned, axis=0, n=self.fft_size)
 
-        # Buffer index for filter
-        self.buffer_ind = 0
+        # Buffer index for filter in each channel
+        self.buffer_ind = np.zeros(n_channels, dtype=np.int_)
 
         # Helper for avoiding allocations in process
         self.buffer_index_helper = np.arange(self.n_partitions)
@@ -221,7 +221,8 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.input_buffer[-self.blocksize :, channel] = block
 
         # Transform input
-        self.buffer_spectra[:, self.buffer_ind, channel] = fft.rfft(
+        buffer_ind = self.buffer_ind[channel]
+        self.buffer_spectra[:, buffer_ind, channel] = fft.rfft(
             self.input_buffer[:, channel]
         )
 
@@ -229,14 +230,13 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         output = np.sum(
             self.partitioned_spectrum
             * self.buffer_spectra[
-                :, self.buffer_ind - self.buffer_index_helper, channel
+                :, buffer_ind - self.buffer_index_helper, channel
             ],
             axis=1,
         )
 
         # Advance filter buffer
-        self.buffer_ind += 1
-        self.buffer_ind %= self.n_partitions
+        self.buffer_ind[channel] = (buffer_ind + 1) % self.n_partitions
 
         # Get output
         return fft.irfft(output)[-self.blocksize :]
-- 
2.43.0


From 0501c756d5cb78e511732e362661c9c5cba429da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 062/231] fix: multichannel partitioned convolution normalized
 coefficients larger than one

---
 dsptoolbox/classes/fir_filter_realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index cf56bd8..de6eebc 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -261,7 +261,7 @@ class FIRUniformPartitionedMultichannel(FIRUniformPartitioned):
 
         """
         # Bring into standard form
-        self.fir = Signal.from_time_data(fir, 10000).time_data
+        self.fir = Signal.from_time_data(fir, 10000, False).time_data
 
     def prepare(self, blocksize_samples: int):  # type: ignore
         """Prepares the processing.
-- 
2.43.0


From 9cafc9958a5ff90da23e71eeb99d38b819de4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 063/231] fix: state-space filters of first order failed

---
 dsptoolbox/classes/state_space_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 18d3e0a..6dcdd06 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -48,9 +48,9 @@ class StateSpaceFilter(RealtimeFilter):
         """
         assert A.ndim == 2, "Matrix A should have exactly 2 dimensions"
         assert len(B) == A.shape[1], "Matrix B dimensions are not valid"
-        self.A = A.squeeze()
-        self.B = B.squeeze()
-        self.C = C.squeeze()
+        self.A = A
+        self.B = np.atleast_1d(B.squeeze())
+        self.C = np.atleast_1d(C.squeeze())
         self.D = D.squeeze()
         self.set_n_channels(1)
 
-- 
2.43.0


From 4c0e17a6801933cdacea22e7ea135b086571b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 064/231] fix: state-space filters of coefficients with
 different lengths failed or were delayed

---
 dsptoolbox/classes/state_space_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 6dcdd06..aafda38 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -71,6 +71,10 @@ class StateSpaceFilter(RealtimeFilter):
 
         """
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+        # Polynomials of z with the same order
+        length = max(len(b), len(a))
+        b = np.pad(b, (0, length - len(b)))
+        a = np.pad(a, (0, length - len(a)))
         return StateSpaceFilter(*tf2ss(b, a))
 
     @staticmethod
-- 
2.43.0


From 0c53934a96e0009906b0d6603097616398a2c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 065/231] fix: state-variable filter bands keep the settings of
 the signal

---
 dsptoolbox/classes/sv_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index f1585b2..47fb6e8 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -139,8 +139,7 @@ class StateVariableFilter(RealtimeFilter):
         td = self.__process_vector(signal.time_data)
         return MultiBandSignal(
             [
-                type(signal)(None, td[:, i, :], sampling_rate_hz=self.sampling_rate_hz)
-                for i in range(4)
+                signal.copy_with_new_time_data(td[:, i, :]) for i in range(4)
             ]
         )
 
-- 
2.43.0


From 1a305e7052a6fcdaad77882ab9d802309fe5855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 066/231] fix: impulse responses of Kautz, parallel and
 state-variable filters were normalized when exceeding 0 dBFS

---
 dsptoolbox/classes/kautz_filter.py    | 1 +
 dsptoolbox/classes/parallel_filter.py | 1 +
 dsptoolbox/classes/sv_filter.py       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/dsptoolbox/classes/kautz_filter.py b/dsptoolbox/classes/kautz_filter.py
index 165ae93..b66a13f 100644
--- a/dsptoolbox/classes/kautz_filter.py
+++ b/dsptoolbox/classes/kautz_filter.py
@@ -271,6 +271,7 @@ class KautzFilter(RealtimeFilter):
             delay_samples=0,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
         return self.filter_signal(d)
 
     def __process_time_data_vector(
diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index c69c405..15e1bd4 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -296,6 +296,7 @@ class ParallelFilter(RealtimeFilter):
     def get_ir(self, length_samples: int):
         """Get an impulse response from the filter bank."""
         d = dirac(length_samples, sampling_rate_hz=self.sampling_rate_hz)
+        d.constrain_amplitude = False
         return self.filter_signal(d)
 
     def set_n_channels(self, n_channels: int):
diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index 47fb6e8..36275f0 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -159,6 +159,7 @@ class StateVariableFilter(RealtimeFilter):
 
         """
         d = dirac(length_samples, sampling_rate_hz=self.sampling_rate_hz)
+        d.constrain_amplitude = False
         self.reset_state()
         return self.filter_signal(d)
 
-- 
2.43.0


From aa7941a0a110aab6974bc41a903d67e4ebbacddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 067/231] fix: lattice-ladder filters of coefficients with
 different lengths or another leading coefficient

---
 dsptoolbox/classes/lattice_ladder_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 9a3c900..015bc94 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -134,6 +134,9 @@ class LatticeLadderFilter(RealtimeFilter):
                 return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
             b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+            length = max(len(b), len(a))
+            b = np.pad(b / a[0], (0, length - len(b)))
+            a = np.pad(a / a[0], (0, length - len(a)))
             k, c = _get_lattice_ladder_coefficients_iir(b, a)
             return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
@@ -466,7 +469,7 @@ def _get_lattice_ladder_coefficients_iir_sos(
     """
     # Normalize second-order sections individually
     if not np.all(sos[:, 3] == 1.0):
-        sos /= sos[:, 3]
+        sos = sos / sos[:, 3:4]
 
     n_sections = sos.shape[0]
     k = np.zeros((n_sections, 2))
-- 
2.43.0


From a659557d9f8b1d03ad3de7a8259b6118e2ca6181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 068/231] fix: FIR lattice dropped the gain and changed the
 coefficients of the original filter

---
 dsptoolbox/classes/lattice_ladder_filter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 015bc94..700dee4 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -99,6 +99,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 self.iir_filter = False
         self.k = k_coefficients
         self.c = c_coefficients
+        self.gain = 1.0  # Of the FIR lattice
         self.state: NDArray[np.float64] | None = None
         self.sampling_rate_hz = sampling_rate_hz
         self.set_n_channels(1)
@@ -142,13 +143,15 @@ class LatticeLadderFilter(RealtimeFilter):
 
         # FIR
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
-        b /= b[0]
-        k = _get_lattice_coefficients_fir(b)
+        gain = b[0] / a[0]
+        k = _get_lattice_coefficients_fir(b / b[0])
         assert np.all(np.abs(k) < 1), (
             "Some reflection coefficient was "
             + "equal or larger than zero, this is not supported"
         )
-        return LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        lattice = LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        lattice.gain = gain
+        return lattice
 
     def set_n_channels(self, n_channels: int):
         assert n_channels > 0, "At least one channel must be initialized"
@@ -207,6 +210,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 )
         elif not self.iir_filter:
             td, self.state = _lattice_filtering_fir(self.k, td, self.state)
+            td *= self.gain
         elif self.iir_filter and self.c is None:
             raise NotImplementedError("No implementation for all-pole IIR filtering")
 
@@ -283,7 +287,7 @@ class LatticeLadderFilter(RealtimeFilter):
             x_o -= self.state[i_k, channel] * self.k[i_k]
             self.state[i_k, channel] = s0
             s0 = s1
-        return x_o
+        return x_o * self.gain
 
 
 def _lattice_ladder_filtering_sos(
-- 
2.43.0


From 00f84fe33ef67f39fe37375948324b91d207f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 069/231] fix: FIR coefficients of the parallel filter were
 placed at wrong offsets

---
 dsptoolbox/classes/parallel_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index 15e1bd4..1d59256 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -226,8 +226,7 @@ class ParallelFilter(RealtimeFilter):
             ff = np.zeros(
                 ((self.fir_offset_samples) * (len(self.__fir_coefficients) - 1) + 1)
             )
-            ff[:: self.fir_offset_samples + 1] = self.__fir_coefficients[:-1]
-            ff[-1] = self.__fir_coefficients[-1]
+            ff[:: self.fir_offset_samples] = self.__fir_coefficients
             self.__fir_coefficients = ff
 
         self.__compute_filter_bank()
-- 
2.43.0


From 119b9458138b820e05dccf55128d03f226bf12ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 070/231] fix: coefficients set in the parallel filter were not
 used for real-time filtering and the filter bank

---
 dsptoolbox/classes/parallel_filter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index 1d59256..b06a403 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -76,8 +76,15 @@ class ParallelFilter(RealtimeFilter):
         self.poles = poles
         self.n_fir = n_fir
         self.sampling_rate_hz = sampling_rate_hz
+        self.__initialize_sos()
         self.set_parameters()
 
+    def __initialize_sos(self):
+        """Second-order sections containing only the poles."""
+        comp_inds = self.poles.imag != 0
+        poles = np.hstack([self.poles, self.poles[comp_inds].conjugate()])
+        self.__sos = sig.zpk2sos([], poles, 1.0)
+
     def set_parameters(
         self,
         delay_iir_samples: int = 0,
@@ -128,6 +135,7 @@ class ParallelFilter(RealtimeFilter):
 
         for ss in range(self.__sos.shape[0]):
             self.__sos[ss, :2] = iir_coefficients[ss, :]
+            self.__sos[ss, 2] = 0.0
 
         if fir is not None:
             assert fir.ndim == 1
@@ -135,6 +143,7 @@ class ParallelFilter(RealtimeFilter):
         else:
             self.__fir_coefficients = np.array([])
         self.n_fir = len(self.__fir_coefficients)
+        self.__compute_filter_bank()
         return self
 
     def fit_to_ir(self, ir: ImpulseResponse):
@@ -161,9 +170,7 @@ class ParallelFilter(RealtimeFilter):
         fs_hz = ir.sampling_rate_hz
 
         # Get SOS
-        comp_inds = self.poles.imag != 0
-        poles = np.hstack([self.poles, self.poles[comp_inds].conjugate()])
-        self.__sos = sig.zpk2sos([], poles, 1.0)
+        self.__initialize_sos()
         n_sos = self.__sos.shape[0]
 
         # ========== Create model matrix
-- 
2.43.0


From 43c738af864b2ee4092d0f83d6b2e2c8cb2274ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 071/231] fix: exponential averaging failed with more than one
 channel

---
 dsptoolbox/classes/exponential_average_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/exponential_average_filter.py b/dsptoolbox/classes/exponential_average_filter.py
index 307348c..2b0cb3a 100644
--- a/dsptoolbox/classes/exponential_average_filter.py
+++ b/dsptoolbox/classes/exponential_average_filter.py
@@ -47,7 +47,7 @@ class ExponentialAverageFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
-        if x > self.state:  # Ascending
+        if x > self.state[0, channel]:  # Ascending
             y = (
                 x * self.increase_coefficient
                 + (1 - self.increase_coefficient) * self.state[0, channel]
-- 
2.43.0


From c0912592dd505838bdfc5e6209ee84263e7377c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 072/231] fix: arma evaluates the AR model at the bins of the
 spectrum for odd lengths

---
 dsptoolbox/filterbanks/_filterbank.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a660ff6..a2bd156 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1538,14 +1538,12 @@ def __ma_parameters(
     A = np.zeros((N // 2 + 1, num_coefficients), dtype=np.complex128)
     target_sp = np.hstack([np.real(spec), np.imag(spec)])
 
-    length = N // 2 + 1
-    include_nyquist = N % 2 == 0
+    frequencies = 2.0 * np.pi * np.fft.rfftfreq(N)
     for n in range(num_coefficients):
         A[:, n] = freqz(
             np.array([0.0] * n + [1.0]),
             ar_coefficients,
-            worN=length,
-            include_nyquist=include_nyquist,
+            worN=frequencies,
         )[1]
 
     return lstsq(
-- 
2.43.0


From 069e08f398f660b9cc5234291826351079e0bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 073/231] fix: FirDesigner.get_filter_as_ir returns the
 designed filter unscaled

---
 .../classes/group_delay_designer_phase_linearizer.py       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
index 6cd7e99..47aecc6 100644
--- a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
+++ b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
@@ -135,7 +135,12 @@ class FirDesigner:
 
     def get_filter_as_ir(self) -> ImpulseResponse:
         """Get the phase filter as an ImpulseResponse."""
-        return ImpulseResponse(None, self.__design(), self.sampling_rate_hz)
+        return ImpulseResponse(
+            None,
+            self.__design(),
+            self.sampling_rate_hz,
+            constrain_amplitude=False,
+        )
 
     def __design(self) -> NDArray[np.float64]:
         """Compute filter."""
-- 
2.43.0


From 33c939783f37fe331442008f6edd525af7da1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 074/231] fix: Inverter biquad inverts the polarity

---
 dsptoolbox/classes/filter_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 500ddf7..f5ecb32 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -133,7 +133,7 @@ def _biquad_coefficients(
             a[1] = 1.0 - K
             a[2] = 0.0
         case BiquadEqType.Inverter:
-            b[0] = A
+            b[0] = -A
             b[1] = 0.0
             b[2] = 0.0
             a[0] = 1.0
-- 
2.43.0


From 3333647f820c720b8b3e3cc162f214d8d8918615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:47 +0000
Subject: [PATCH 075/231] fix: gammatone reconstruction returned NaN since its
 delays were taken before the impulse

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a2bd156..a93ea37 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -714,7 +714,7 @@ class GammaToneFilterBank(FilterBank):
         # apply filterbank to impulse to estimate the required values
         d = dirac(
             length_samples=self.sampling_rate_hz // 2,
-            delay_samples=delay_samples + 3,
+            delay_samples=0,
             sampling_rate_hz=self.sampling_rate_hz,
         )
         d = self.filter_signal(d, mode=FilterBankMode.Parallel)
-- 
2.43.0


From 98093f8911c49322b6df2d9e505264f0c96c9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 076/231] fix: gammatone reconstruction of a single band

---
 dsptoolbox/filterbanks/_filterbank.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a93ea37..0ff228f 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -819,12 +819,8 @@ class GammaToneFilterBank(FilterBank):
         for ind, b in enumerate(signal.bands):
             time[ind, :, :] = b.time_data + b.time_data_imaginary * 1j
 
-        # Reordering axis for later to (bands, channels, time samples) or
-        # (bands, time samples) when single channel
-        if time.shape[-1] == 1:
-            time = time.squeeze()
-        else:
-            time = np.moveaxis(time, -1, 1)
+        # Reordering axis for later to (bands, channels, time samples)
+        time = np.moveaxis(time, -1, 1)
 
         reconstructed_sig = signal.bands[0].copy()
 
@@ -834,9 +830,9 @@ class GammaToneFilterBank(FilterBank):
         ):
             time[bb] = np.real(np.roll(time[bb], delay, axis=-1) * phase_factor) * gain
 
-        # sum and squeeze first axis (the signal is already real, but the data
+        # sum along first axis (the signal is already real, but the data
         # type is still complex)
-        reconstructed_sig.time_data = np.sum(np.real(time), axis=0)
+        reconstructed_sig.time_data = np.sum(np.real(time), axis=0).T
         return reconstructed_sig
 
 
-- 
2.43.0


From a8f0d0317772ed9fb38572fb9ec2344759385b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 077/231] fix: gammatone reconstruction delayed the bands
 circularly

---
 dsptoolbox/filterbanks/_filterbank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 0ff228f..6934eba 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -829,6 +829,8 @@ class GammaToneFilterBank(FilterBank):
             zip(self._phase_factors, self._delays, self._gains)
         ):
             time[bb] = np.real(np.roll(time[bb], delay, axis=-1) * phase_factor) * gain
+            # the delay is not circular
+            time[bb, :, :delay] = 0.0
 
         # sum along first axis (the signal is already real, but the data
         # type is still complex)
-- 
2.43.0


From 3231f86f3d98b15cf293f9a5b5cf31a1542570dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 078/231] fix: Spectrum data with fewer bins than channels was
 transposed

---
 dsptoolbox/classes/spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3b19d30..5ca09b6 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -254,7 +254,10 @@ class Spectrum(MultichannelData):
         """
         data = np.atleast_2d(new_data)
         assert data.ndim == 2, "Spectral data must have two dimensions"
-        if data.shape[0] < data.shape[1]:
+        if (
+            data.shape[0] != self.number_frequency_bins
+            and data.shape[1] == self.number_frequency_bins
+        ):
             data = data.T
         assert (
             data.shape[0] == self.number_frequency_bins
-- 
2.43.0


From 3be8dff4b476cae473bdd68f2dbb64e38874b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 079/231] fix: exclusive Spectrum.trim dropped the first bin
 above a limit that is no bin

---
 dsptoolbox/classes/spectrum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 5ca09b6..f75801b 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -1054,7 +1054,11 @@ class Spectrum(MultichannelData):
                     ind_low -= 1
                     ind_low = max(ind_low, 0)
         else:
-            if f_lower_hz is not None:
+            if (
+                f_lower_hz is not None
+                and ind_low < self.number_frequency_bins
+                and self.frequency_vector_hz[ind_low] == f_lower_hz
+            ):
                 ind_low += 1
         assert ind_low < ind_high, "Slice is invalid"
         return slice(ind_low, ind_high)
-- 
2.43.0


From c74e9fa3257def16f479e20d54b75efca449b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 080/231] fix: Spectrum channel operations and trimming keep
 the coherence aligned with the data

---
 dsptoolbox/classes/spectrum.py | 49 +++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index f75801b..3b207ae 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -431,8 +431,11 @@ class Spectrum(MultichannelData):
 
         """
         s = self.__freqs_to_slice(f_lower_hz, f_upper_hz, inclusive)
+        new_data = self.spectral_data[s, ...]
         self.frequency_vector_hz = self.frequency_vector_hz[s]
-        self.spectral_data = self.spectral_data[s, ...]
+        self.spectral_data = new_data
+        if self.has_coherence:
+            self.set_coherence(self.coherence[s, ...])
         return self
 
     def sum_channels(self, power_sum: bool = True) -> "Spectrum":
@@ -885,7 +888,7 @@ class Spectrum(MultichannelData):
             coherence.shape == self.spectral_data.shape
         ), "Length of signals and given coherence do not match"
         assert not np.iscomplexobj(coherence), "Coherence cannot be complex"
-        self.coherence = coherence
+        self.coherence = coherence.copy()
 
     def plot_magnitude(
         self,
@@ -999,6 +1002,33 @@ class Spectrum(MultichannelData):
         """
         return deepcopy(self)
 
+    # ======== Channel handling ===============================================
+    def get_channels(self, channels: int | ArrayLike) -> "Spectrum":
+        new_spectrum = super().get_channels(channels)
+        if self.has_coherence:
+            channels = np.atleast_1d(np.asarray(channels).squeeze())
+            new_spectrum.set_coherence(self.coherence[:, channels])
+        return new_spectrum
+
+    get_channels.__doc__ = MultichannelData.get_channels.__doc__
+
+    def remove_channel(self, channel_number: int = -1) -> "Spectrum":
+        super().remove_channel(channel_number)
+        if self.has_coherence:
+            self.set_coherence(np.delete(self.coherence, channel_number, axis=-1))
+        return self
+
+    remove_channel.__doc__ = MultichannelData.remove_channel.__doc__
+
+    def swap_channels(self, new_order) -> "Spectrum":
+        super().swap_channels(new_order)
+        if self.has_coherence:
+            new_order = np.atleast_1d(np.asarray(new_order).squeeze())
+            self.set_coherence(self.coherence[:, new_order])
+        return self
+
+    swap_channels.__doc__ = MultichannelData.swap_channels.__doc__
+
     # ======== Multichannel Data Base Class Implementation ====================
     def _get_data(self) -> NDArray[np.float64 | np.complex128]:
         """Get the spectral data for multichannel operations."""
@@ -1013,14 +1043,21 @@ class Spectrum(MultichannelData):
     ) -> "Spectrum":
         """Create a copy with new spectral data."""
         new_spectrum = Spectrum(self.frequency_vector_hz, data)
-        # Copy interpolator parameters
+        # Copy interpolator parameters. Complex domains are not available for
+        # magnitude data
         new_spectrum.set_interpolator_parameters(
-            self.__int_domain,
+            (
+                InterpolationDomain.Power
+                if self.__int_domain.is_complex() and new_spectrum.is_magnitude
+                else self.__int_domain
+            ),
             self.__int_scheme,
             self.__int_edges,
         )
-        # Copy coherence if it exists
-        if self.has_coherence:
+        # Copy coherence if it exists and corresponds to the new data
+        if self.has_coherence and (
+            self.coherence.shape == new_spectrum.spectral_data.shape
+        ):
             new_spectrum.set_coherence(self.coherence)
         return new_spectrum
 
-- 
2.43.0


From 11aafb5ea89abbf83eb78ae493bd4bf9e7849506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 081/231] fix: complex output of
 Spectrum.get_interpolated_spectrum lost the phase in power and magnitude
 domains

---
 dsptoolbox/classes/spectrum.py | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3b207ae..eac76e4 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -570,6 +570,11 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             assert not self.is_magnitude, "Complex output is not supported"
 
+        # Complex output demands a domain that keeps the phase
+        domain = self.__int_domain
+        if output_type == SpectrumType.Complex and not domain.is_complex():
+            domain = InterpolationDomain.MagnitudePhase
+
         inds_outside_left = requested_frequency < self.frequency_vector_hz[0]
         inds_outside_right = requested_frequency > self.frequency_vector_hz[-1]
         if self.__int_edges == InterpolationEdgeHandling.Error:
@@ -579,20 +584,20 @@ class Spectrum(MultichannelData):
             )
 
         # Input for interpolation depending on domain
-        if self.__int_domain == InterpolationDomain.Power:
+        if domain == InterpolationDomain.Power:
             if self.is_magnitude:
                 interp_data = self.spectral_data**2.0
             else:
                 interp_data = np.abs(self.spectral_data) ** 2.0
-        elif self.__int_domain == InterpolationDomain.Magnitude:
+        elif domain == InterpolationDomain.Magnitude:
             if self.is_magnitude:
                 interp_data = self.spectral_data
             else:
                 interp_data = np.abs(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.Complex:
+        elif domain == InterpolationDomain.Complex:
             interp_data = np.real(self.spectral_data)
             interp_data_imag = np.imag(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+        elif domain == InterpolationDomain.MagnitudePhase:
             interp_data = np.abs(self.spectral_data)
             interp_data_imag = np.unwrap(np.angle(self.spectral_data), axis=0)
 
@@ -615,11 +620,11 @@ class Spectrum(MultichannelData):
             output = func(self.frequency_vector_hz, interp_data, axis=0)(
                 requested_frequency
             )
-            if self.__int_domain == InterpolationDomain.Complex:
+            if domain == InterpolationDomain.Complex:
                 output = output + 1j * func(
                     self.frequency_vector_hz, interp_data_imag, axis=0
                 )(requested_frequency)
-            elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+            elif domain == InterpolationDomain.MagnitudePhase:
                 output = output * np.exp(
                     1j
                     * func(self.frequency_vector_hz, interp_data_imag, axis=0)(
@@ -634,7 +639,7 @@ class Spectrum(MultichannelData):
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
-                dtype=(np.complex128 if self.__int_domain.is_complex() else np.float64),
+                dtype=(np.complex128 if domain.is_complex() else np.float64),
             )
             for ch in range(output.shape[1]):
                 output[:, ch] = np.interp(
@@ -645,7 +650,7 @@ class Spectrum(MultichannelData):
                     right=right_val,
                 )
                 # Complex handling
-                if self.__int_domain == InterpolationDomain.Complex:
+                if domain == InterpolationDomain.Complex:
                     output[:, ch] += 1j * np.interp(
                         requested_frequency,
                         self.frequency_vector_hz,
@@ -653,7 +658,7 @@ class Spectrum(MultichannelData):
                         left=left_val,
                         right=right_val,
                     )
-                elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+                elif domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
                         1j
                         * np.interp(
@@ -669,20 +674,20 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             return output
         elif output_type == SpectrumType.Db:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return to_db(np.abs(output), True)
-            return to_db(output, self.__int_domain.is_linear())
+            return to_db(output, domain.is_linear())
         elif output_type == SpectrumType.Power:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output) ** 2.0
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output**2.0
             else:  # "power"
                 return output
         elif output_type == SpectrumType.Magnitude:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output)
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output
             else:  # "power"
                 return output**0.5
-- 
2.43.0


From 6f0830342aa575bf1ab1c38982dba4ee4ed1a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 082/231] fix: Spectrum interpolation outside the range follows
 the edge handling in every domain and scheme

---
 dsptoolbox/classes/spectrum.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index eac76e4..a0eb9f9 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -607,8 +607,9 @@ class Spectrum(MultichannelData):
         elif self.__int_edges == InterpolationEdgeHandling.OnePad:
             left_val = right_val = 1.0
         else:  # "extend"
-            left_val = interp_data[0, ...]
-            right_val = interp_data[-1, ...]
+            edge_data = self.spectral_data if domain.is_complex() else interp_data
+            left_val = edge_data[0, ...]
+            right_val = edge_data[-1, ...]
 
         # Interpolation and filling edges
         if self.__int_scheme != InterpolationScheme.Linear:
@@ -631,11 +632,8 @@ class Spectrum(MultichannelData):
                         requested_frequency
                     )
                 )
-
-            if len(inds_outside_left) > 0:
-                output[inds_outside_left, :] = left_val
-            if len(inds_outside_right) > 0:
-                output[inds_outside_right, :] = right_val
+            else:  # Overshoot of the interpolation
+                output = np.maximum(output, 0.0)
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
@@ -646,8 +644,6 @@ class Spectrum(MultichannelData):
                     requested_frequency,
                     self.frequency_vector_hz,
                     interp_data[:, ch],
-                    left=left_val,
-                    right=right_val,
                 )
                 # Complex handling
                 if domain == InterpolationDomain.Complex:
@@ -655,8 +651,6 @@ class Spectrum(MultichannelData):
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
-                        left=left_val,
-                        right=right_val,
                     )
                 elif domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
@@ -665,11 +659,12 @@ class Spectrum(MultichannelData):
                             requested_frequency,
                             self.frequency_vector_hz,
                             interp_data_imag[:, ch],
-                            left=left_val,
-                            right=right_val,
                         )
                     )
 
+        output[inds_outside_left, :] = left_val
+        output[inds_outside_right, :] = right_val
+
         # Output type
         if output_type == SpectrumType.Complex:
             return output
-- 
2.43.0


From 106bdf9f26233c470cd4a9fcb419717f3d1c3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 083/231] fix: Spectrum.resample uses and keeps the stored
 interpolation parameters and resamples the coherence

---
 dsptoolbox/classes/spectrum.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index a0eb9f9..8c39325 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -480,21 +480,23 @@ class Spectrum(MultichannelData):
         self
 
         """
-        self.set_interpolator_parameters(
-            (
-                InterpolationDomain.Power
-                if self.is_magnitude
-                else InterpolationDomain.MagnitudePhase
-            ),
-            self.__int_scheme,
-            self.__int_edges,
-        )
         new_sp = self.get_interpolated_spectrum(
             new_freqs_hz,
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
         )
+        old_freqs_hz = self.frequency_vector_hz
         self.frequency_vector_hz = new_freqs_hz
         self.spectral_data = new_sp
+        if self.has_coherence:
+            self.set_coherence(
+                np.stack(
+                    [
+                        np.interp(new_freqs_hz, old_freqs_hz, coherence)
+                        for coherence in self.coherence.T
+                    ],
+                    axis=-1,
+                )
+            )
         return self
 
     def normalize(
-- 
2.43.0


From 05297fb70fd7079d6d0e64671806d5cd86ceadf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 084/231] fix: Spectrum.to_signal keeps odd lengths and leaves
 the interpolation parameters as they are

---
 dsptoolbox/classes/spectrum.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 8c39325..9bc9384 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -368,8 +368,10 @@ class Spectrum(MultichannelData):
         """
         assert not self.is_magnitude, "Spectrum must be complex"
 
-        def __td_from_spec(spec, length_seconds, sampling_rate_hz) -> Signal:
-            time_data = np.fft.irfft(spec, axis=0)
+        def __td_from_spec(
+            spec, length_seconds, sampling_rate_hz, n_samples
+        ) -> Signal:
+            time_data = np.fft.irfft(spec, n=n_samples, axis=0)
             if length_seconds is not None:
                 length_samples = int(length_seconds * sampling_rate_hz + 0.5)
                 time_data = _pad_trim(time_data, length_samples)
@@ -377,6 +379,7 @@ class Spectrum(MultichannelData):
 
         if self.frequency_vector_type == FrequencySpacing.Linear:
             delta_f = self.frequency_vector_hz[1] - self.frequency_vector_hz[0]
+            n_samples = max(int(sampling_rate_hz / delta_f + 0.5), 1)
             condition_sampling_rate = (
                 abs(sampling_rate_hz / 2 - self.frequency_vector_hz[-1]) > delta_f
             )
@@ -384,28 +387,25 @@ class Spectrum(MultichannelData):
 
             if not (condition_sampling_rate or condition_start):
                 return __td_from_spec(
-                    self.spectral_data, length_seconds, sampling_rate_hz
+                    self.spectral_data, length_seconds, sampling_rate_hz, n_samples
                 )
-
-            requested_freqs = np.arange(
-                0.0, sampling_rate_hz / 2 + delta_f / 2.0, delta_f
-            )
         else:
             assert length_seconds is not None, "A length must be provided"
 
-            requested_freqs = np.fft.rfftfreq(
-                int(length_seconds * sampling_rate_hz + 0.5),
-                1 / sampling_rate_hz,
-            )
+            n_samples = int(length_seconds * sampling_rate_hz + 0.5)
 
-        self.set_interpolator_parameters(
-            InterpolationDomain.MagnitudePhase,
-            InterpolationScheme.Pchip,
-            InterpolationEdgeHandling.ZeroPad,
+        requested_freqs = np.fft.rfftfreq(n_samples, 1 / sampling_rate_hz)
+        spectrum = (
+            self.copy()
+            .set_interpolator_parameters(
+                InterpolationDomain.MagnitudePhase,
+                InterpolationScheme.Pchip,
+                InterpolationEdgeHandling.ZeroPad,
+            )
+            .get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
         )
-        spectrum = self.get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
 
-        return __td_from_spec(spectrum, length_seconds, sampling_rate_hz)
+        return __td_from_spec(spectrum, length_seconds, sampling_rate_hz, n_samples)
 
     def trim(
         self,
-- 
2.43.0


From 16b61506e18220f101ee3416552c13c9278d1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 085/231] fix: Spectrum.apply_octave_smoothing failed for
 irregular frequency vectors

---
 dsptoolbox/classes/spectrum.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 9bc9384..9fb1554 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -848,15 +848,20 @@ class Spectrum(MultichannelData):
         ):
             data = self.spectral_data
         else:  # Other: map to linear and interpolate
-            data = self.get_interpolated_spectrum(
+            self.resample(
                 np.linspace(
                     self.frequency_vector_hz[0],
                     self.frequency_vector_hz[-1],
-                    self.frequency_vector_hz[-1] - self.frequency_vector_hz[0],
+                    int(
+                        np.ceil(
+                            self.frequency_vector_hz[-1] - self.frequency_vector_hz[0]
+                        )
+                    )
+                    + 1,
                     endpoint=True,
-                ),
-                (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
+                )
             )
+            data = self.spectral_data
 
         if self.is_magnitude:
             self.spectral_data = fractional_octave_smoothing(
-- 
2.43.0


From 893daa8f61c9571c0a9d79b1788163cf0d5d3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 086/231] fix: spectral_difference limits the range of complex
 spectra and returns magnitudes for complex=False

---
 dsptoolbox/standard/other.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index eea30a9..5b88266 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -454,6 +454,9 @@ def spectral_difference(
         if complex:
             assert not input_1.is_magnitude, "Input data should be complex"
         inp1 = input_1.copy()
+        if not complex and not inp1.is_magnitude:
+            inp1.set_interpolator_parameters()
+            inp1.spectral_data = np.abs(inp1.spectral_data)
 
     if isinstance(input_2, Signal):
         inp2 = Spectrum.from_signal(input_2, complex)
@@ -461,6 +464,9 @@ def spectral_difference(
         if complex:
             assert not input_2.is_magnitude, "Input data should be complex"
         inp2 = input_2.copy()
+        if not complex and not inp2.is_magnitude:
+            inp2.set_interpolator_parameters()
+            inp2.spectral_data = np.abs(inp2.spectral_data)
 
     if energy_normalization:
         inp1.spectral_data /= inp1.get_energy() ** 0.5
@@ -480,7 +486,11 @@ def spectral_difference(
 
     if dynamic_range_db is not None:
         dynamic_range_factor = from_db(-abs(dynamic_range_db), True)
-        mag2 = np.clip(mag2, np.max(mag2, axis=0) * dynamic_range_factor, None)
+        magnitude = np.abs(mag2)
+        clipped = np.clip(
+            magnitude, np.max(magnitude, axis=0) * dynamic_range_factor, None
+        )
+        mag2 = clipped * np.exp(1j * np.angle(mag2)) if complex else clipped
 
     inp1.spectral_data /= mag2
     return inp1
-- 
2.43.0


From 1150cb669cd0580a47b7de450fc55470f110858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 087/231] fix: Spectrum octave smoothing regards the first
 frequency and keeps magnitudes positive

---
 dsptoolbox/classes/spectrum.py  | 30 ++++++++++++++++++------------
 dsptoolbox/helpers/smoothing.py | 14 +++++++++++---
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 9fb1554..ee775e2 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -863,21 +863,27 @@ class Spectrum(MultichannelData):
             )
             data = self.spectral_data
 
-        if self.is_magnitude:
-            self.spectral_data = fractional_octave_smoothing(
-                data, beta, octave_fraction, window_type.to_scipy_format()
+        first_bin = 1.0
+        if beta is None:
+            f = self.frequency_vector_hz
+            first_bin = max(f[0] / (f[1] - f[0]), 1.0)
+
+        def __smooth(x, clip_values):
+            return fractional_octave_smoothing(
+                x,
+                beta,
+                octave_fraction,
+                window_type.to_scipy_format(),
+                clip_values=clip_values,
+                first_linear_bin=first_bin,
             )
+
+        if self.is_magnitude:
+            self.spectral_data = __smooth(data, True)
             return self
 
-        mag = fractional_octave_smoothing(
-            np.abs(data), beta, octave_fraction, window_type.to_scipy_format()
-        )
-        ph = fractional_octave_smoothing(
-            np.unwrap(np.angle(data), axis=0),
-            beta,
-            octave_fraction,
-            window_type.to_scipy_format(),
-        )
+        mag = __smooth(np.abs(data), True)
+        ph = __smooth(np.unwrap(np.angle(data), axis=0), False)
         self.spectral_data = mag * np.exp(1j * ph)
         return self
 
diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index f53e162..b7f9e81 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -13,6 +13,7 @@ def _fractional_octave_smoothing(
     window_type="hann",
     window_vec: NDArray[np.float64] | None = None,
     clip_values: bool = False,
+    first_linear_bin: float = 1.0,
 ) -> NDArray[np.float64]:
     """Smoothes a vector using interpolation to a logarithmic scale. Usually
     done for smoothing of frequency data. This implementation is taken from
@@ -37,6 +38,10 @@ def _fractional_octave_smoothing(
         `None` if this direct window is going to be used. Default: `None`.
     clip_values : bool, optional
         When `True`, negative values are clipped to 0. Default: `False`.
+    first_linear_bin : float, optional
+        Position of the first value of a linearly-spaced vector in bins. It is
+        greater than 1 if the vector does not start at the lowest frequency.
+        Default: 1.
 
     Returns
     -------
@@ -58,9 +63,12 @@ def _fractional_octave_smoothing(
         # Linear and logarithmic frequency vector
         N = len(vector)
         l1 = np.arange(N, dtype=np.float64)
-        k_log = (N) ** (l1 / (N - 1))
-        l1 += 1.0
-        beta = np.log2(k_log[1])
+        k_log = first_linear_bin * (
+            (first_linear_bin + N - 1) / first_linear_bin
+        ) ** (l1 / (N - 1))
+        l1 += first_linear_bin
+        k_log[-1] = l1[-1]
+        beta = np.log2(k_log[1] / k_log[0])
         # Interpolate to logarithmic scale
         vector = PchipInterpolator(l1, vector, axis=0)(k_log)
     else:
-- 
2.43.0


From 2d33e78d455009940a8ebbf09f2576ce3052f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 088/231] fix: spectral_deconvolve used the spectrum parameters
 and padding of the signals

---
 .../transfer_functions/transfer_functions.py  | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b82a953..1cbe5ee 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -131,21 +131,16 @@ def spectral_deconvolve(
             start_stop_hz is None
         ), "No start_stop_hz vector can be passed when using standard mode"
 
-    output = output.copy()
-    input = input.copy()
     original_length = output.time_data.shape[0]
+    length_samples = original_length * 2 if padding else original_length
 
-    if padding:
-        output.time_data = _pad_trim(output.time_data, original_length * 2)
-        input.time_data = _pad_trim(input.time_data, original_length * 2)
-
-    input.spectrum_method = SpectrumMethod.FFT
-    output.spectrum_method = SpectrumMethod.FFT
-    _, denum_fft = input.get_spectrum()
-    freqs_hz, num_fft = output.get_spectrum()
+    # Plain FFT, independent of the spectrum parameters of the signals
+    denum_fft = np.fft.rfft(input.time_data, n=length_samples, axis=0)
+    num_fft = np.fft.rfft(output.time_data, n=length_samples, axis=0)
+    freqs_hz = np.fft.rfftfreq(length_samples, 1 / output.sampling_rate_hz)
     fs_hz = output.sampling_rate_hz
 
-    new_time_data = np.zeros_like(output.time_data)
+    new_time_data = np.zeros((length_samples, output.number_of_channels))
 
     for n in range(output.number_of_channels):
         n_denum = 0 if multichannel else n
@@ -172,7 +167,7 @@ def spectral_deconvolve(
             num_fft[:, n],
             denum_fft[:, n_denum],
             freqs_hz,
-            original_length * 2 if padding else original_length,
+            length_samples,
             start_stop_hz=start_stop_hz,
             regularized=apply_regularization,
         )
-- 
2.43.0


From 2858cf01b49f4ca5c57cd4e3201c31e8295817e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 089/231] fix: spectral_deconvolve finds the excited range for
 each channel

---
 .../transfer_functions/transfer_functions.py  | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 1cbe5ee..702fce2 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -145,30 +145,31 @@ def spectral_deconvolve(
     for n in range(output.number_of_channels):
         n_denum = 0 if multichannel else n
         if apply_regularization:
-            if start_stop_hz is None:
-                start_stop_hz = find_frequencies_above_threshold(
+            channel_range_hz = start_stop_hz
+            if channel_range_hz is None:
+                channel_range_hz = find_frequencies_above_threshold(
                     denum_fft[:, n_denum], freqs_hz, threshold_db
                 )
-            if len(start_stop_hz) == 2:
-                start_stop_hz = np.array(
+            if len(channel_range_hz) == 2:
+                channel_range_hz = np.array(
                     [
-                        start_stop_hz[0] / np.sqrt(2),
-                        start_stop_hz[0],
-                        start_stop_hz[1],
-                        np.min([start_stop_hz[1] * np.sqrt(2), fs_hz / 2]),
+                        channel_range_hz[0] / np.sqrt(2),
+                        channel_range_hz[0],
+                        channel_range_hz[1],
+                        np.min([channel_range_hz[1] * np.sqrt(2), fs_hz / 2]),
                     ]
                 )
-            elif len(start_stop_hz) != 4:
+            elif len(channel_range_hz) != 4:
                 raise ValueError("start_stop_hz vector should have 2 or 4 values")
         else:
-            start_stop_hz = None
+            channel_range_hz = None
 
         new_time_data[:, n] = _spectral_deconvolve(
             num_fft[:, n],
             denum_fft[:, n_denum],
             freqs_hz,
             length_samples,
-            start_stop_hz=start_stop_hz,
+            start_stop_hz=channel_range_hz,
             regularized=apply_regularization,
         )
     new_sig = ImpulseResponse(
-- 
2.43.0


From 4006bf422766b807947bbf84bcc23d2436dfb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 090/231] fix: compute_transfer_function returned the square
 root of the transfer function for amplitude scalings

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 702fce2..8e90a62 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -51,6 +51,7 @@ from ..filterbanks import linkwitz_riley_crossovers
 from ..helpers.gain_and_level import to_db, from_db
 from ..standard.enums import (
     SpectrumMethod,
+    SpectrumScaling,
     SpectrumType,
     MagnitudeNormalization,
     Window,
@@ -469,6 +470,8 @@ def compute_transfer_function(
     spectrum_parameters.pop("method")
     spectrum_parameters.pop("smoothing")
     spectrum_parameters.pop("pad_to_fast_length")
+    # The estimators are ratios of power spectra
+    spectrum_parameters["scaling"] = SpectrumScaling.PowerSpectralDensity
 
     coherence = np.zeros((window_length_samples // 2 + 1, output.number_of_channels))
     tf = np.zeros(
-- 
2.43.0


From 3e02b07e772381357ff49e5062a204953a63d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 091/231] fix: window_centered_ir returned a wrong start and
 padded at the beginning for late peaks

---
 .../transfer_functions/_transfer_functions.py | 56 +++++--------------
 1 file changed, 13 insertions(+), 43 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 483124c..7497568 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -166,49 +166,19 @@ def _window_this_ir(
     """
     peak_ind = int(np.argmax(np.abs(vec)))
     half_length = total_length // 2
-    centered_impulse_and_even = peak_ind + half_length == len(vec) and len(vec) % 2 == 0
-
-    # If Peak is in the second half
-    flipping = peak_ind > half_length
-    if flipping:
-        vec = vec[::-1]
-        peak_ind = len(vec) - peak_ind - 1
-
-    w = get_window(window_type.to_scipy_format(), half_length * 2 + 1, False)
-
-    # Define start index for time data and window
-    if peak_ind - half_length < 0:
-        ind_low_td = 0
-        ind_low_w = half_length - peak_ind
-    else:
-        ind_low_td = peak_ind - half_length
-        ind_low_w = 0
-
-    # Pad vector if necessary
-    if total_length - ind_low_td > len(vec):
-        vec = np.pad(vec, ((0, total_length + ind_low_td - len(vec))))
-
-    # Get second half
-    if peak_ind + half_length + 1 > len(vec) and not centered_impulse_and_even:
-        ind_up_td = len(vec)
-        ind_up_w = peak_ind + half_length + 1 - len(vec)
-    else:
-        ind_up_td = peak_ind + half_length + 1
-        ind_up_w = len(w) - (1 if centered_impulse_and_even else 0)
-
-    # Get time data and window
-    w = w[ind_low_w:ind_up_w]
-    td = vec[ind_low_td:ind_up_td] * w
-
-    # Final length adaptation (ensure length)
-    if len(td) != total_length:
-        td = _pad_trim(td, total_length)
-        w = _pad_trim(w, total_length)
-
-    # Flip back if needed
-    if flipping:
-        td = td[::-1]
-        w = w[::-1]
+    # Start so that the peak is in the middle while staying inside the vector
+    ind_low_td = min(
+        max(peak_ind - half_length, 0), max(len(vec) - total_length, 0)
+    )
+    td = _pad_trim(vec[ind_low_td:], total_length)
+
+    # Window centered on the peak
+    window = get_window(window_type.to_scipy_format(), half_length * 2 + 1, False)
+    ind_window = np.arange(total_length) - (peak_ind - ind_low_td) + half_length
+    inside = (ind_window >= 0) & (ind_window < len(window))
+    w = np.zeros(total_length)
+    w[inside] = window[ind_window[inside]]
+    td = td * w
 
     return td, w, ind_low_td
 
-- 
2.43.0


From b084ee713e48bcc8f5036e2c509c024d3e9afe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 092/231] fix: window_ir lost the offset when the response had
 to be padded at the start

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 7497568..fbd491b 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -77,9 +77,9 @@ def _window_this_ir_tukey(
         if impulse_index - offset_samples < 0:
             pad_length = -int(impulse_index - offset_samples)
             vec = np.pad(vec, ((pad_length, 0)))
-            impulse_index += pad_length  # Update to reflect new position after padding
             start_sample += pad_length
             padding_left += pad_length
+            impulse_index = 0  # Position where the constant part starts
         else:
             impulse_index -= offset_samples
 
@@ -91,7 +91,7 @@ def _window_this_ir_tukey(
             padding_left += pad_length
         else:
             vec = vec[impulse_index - left_flank_length :]
-            start_sample = impulse_index - left_flank_length
+            start_sample += impulse_index - left_flank_length
             # Update to new position in trimmed vector
             impulse_index = left_flank_length
 
-- 
2.43.0


From 4ed093308bd2840de565c7b9ac6bc99d55772352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 093/231] fix: average_irs did not normalise the energies and
 depended on the spectrum parameters

---
 .../transfer_functions/transfer_functions.py   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 8e90a62..2a42a76 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -572,15 +572,15 @@ def average_irs(
         signal.number_of_channels > 1
     ), "Signal has only one channel so no meaningful averaging can be done"
     avg_sig = signal.copy()
+    time_data = signal.time_data.copy()
 
     if normalize_energy:
-        energies = np.sum(signal.time_data**2, axis=0)
-        energies /= energies[0]
-        avg_sig.time_data *= energies
+        energies = np.sum(time_data**2, axis=0)
+        time_data *= (energies[0] / energies) ** 0.5
 
     if not time_average:
         # Obtain channel magnitude and phase spectra
-        _, sp = signal.get_spectrum()
+        sp = np.fft.rfft(time_data, axis=0)
         mag = np.abs(sp)
         pha = np.unwrap(np.angle(sp), axis=0)
 
@@ -602,10 +602,14 @@ def average_irs(
                 latencies[channel_to_follow] - latencies[i]
             ) / signal.sampling_rate_hz
             new_channel = fractional_delay(
-                signal.get_channels(i), latency_s, keep_length=True
+                ImpulseResponse(
+                    None, time_data[:, i], signal.sampling_rate_hz, False
+                ),
+                latency_s,
+                keep_length=True,
             )
-            avg_sig.time_data[:, i] = new_channel.time_data[:, 0]
-        new_time_data = np.mean(avg_sig.time_data, axis=1)
+            time_data[:, i] = new_channel.time_data[:, 0]
+        new_time_data = np.mean(time_data, axis=1)
 
     avg_sig.time_data = new_time_data
     return avg_sig
-- 
2.43.0


From 843ad18a889e918b1b7024d8f7121c72d57f9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 094/231] fix: combine_ir_with_dirac accumulated the delays of
 the previous channels

---
 dsptoolbox/transfer_functions/transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 2a42a76..0d2fca3 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1156,7 +1156,7 @@ def combine_ir_with_dirac(
 
     for ch in range(ir.number_of_channels):
         delay_seconds = latencies_samples[ch] / ir.sampling_rate_hz
-        imp_ch = imp.get_channels(ch)
+        imp_ch = imp.get_channels(0)
         imp_ch = fractional_delay(imp_ch, delay_seconds=delay_seconds, keep_length=True)
         imp = append_signals([imp, imp_ch])
 
-- 
2.43.0


From 182e82da3a2bfbdb1c0e4ab8927c9b52a2443c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 095/231] fix: ir_to_filter with minimum or linear phase
 depended on the spectrum parameters and length

---
 dsptoolbox/transfer_functions/transfer_functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 0d2fca3..e53fe6a 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1235,12 +1235,14 @@ def ir_to_filter(
 
     # Change phase
     if phase_mode == "min":
-        signal = min_phase_from_mag(
-            Spectrum.from_signal(signal), signal.sampling_rate_hz, len(signal)
-        )
+        signal = min_phase_ir(signal)
     elif phase_mode == "lin":
         signal = lin_phase_from_mag(
-            Spectrum.from_signal(signal), signal.sampling_rate_hz, len(signal)
+            Spectrum(
+                np.fft.rfftfreq(len(signal), 1 / signal.sampling_rate_hz),
+                np.abs(np.fft.rfft(signal.time_data, axis=0)),
+            ),
+            signal.sampling_rate_hz,
         )
 
     filters = []
-- 
2.43.0


From 6215407fbb11c6e648dc8519623eb31a2ff3f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 096/231] fix: filter_to_ir scaled coefficients larger than one

---
 dsptoolbox/transfer_functions/transfer_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index e53fe6a..4a1e3ad 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1274,7 +1274,9 @@ def filter_to_ir(fir: Filter | FilterBank) -> ImpulseResponse:
     if isinstance(fir, Filter):
         assert not fir.is_iir, "This is only valid for FIR filters"
         return ImpulseResponse.from_time_data(
-            fir.ba[0].copy(), sampling_rate_hz=fir.sampling_rate_hz
+            fir.ba[0].copy(),
+            sampling_rate_hz=fir.sampling_rate_hz,
+            constrain_amplitude=False,
         )
     elif isinstance(fir, FilterBank):
         assert all([not f.is_iir for f in fir]), "Filter types must be fir"
@@ -1285,7 +1287,7 @@ def filter_to_ir(fir: Filter | FilterBank) -> ImpulseResponse:
         td = np.zeros((length_samples, len(fir)), dtype=np.float64)
         for ind, f in enumerate(fir):
             td[: len(f), ind] = f.ba[0].copy()
-        return ImpulseResponse.from_time_data(td, fir.sampling_rate_hz)
+        return ImpulseResponse.from_time_data(td, fir.sampling_rate_hz, False)
     else:
         raise TypeError("Unsupported type")
 
-- 
2.43.0


From 28fe8549ef907018da45ba8b1969adf223ceced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 097/231] fix: harmonic_distortion_analysis modified the passed
 list and responses

---
 dsptoolbox/transfer_functions/transfer_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 4a1e3ad..fef4a36 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1561,10 +1561,10 @@ def harmonic_distortion_analysis(
                 each_ir.number_of_channels == 1
             ), "Only single-channel IRs are supported"
 
-        ir2 = ir.pop(0)
+        harm = [each_ir.copy() for each_ir in ir]
+        ir2 = harm.pop(0)
         ir2._spectrum_parameters["smoothing"] = smoothing
 
-        harm = ir
         n_harmonics = len(harm)
         if chirp_range_hz is None:
             chirp_range_hz = [0, ir2.sampling_rate_hz // 2]
-- 
2.43.0


From 147bdd2c3238fb873138718d21b3462f8eef8f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 098/231] fix: impulse responses from magnitude spectra were
 rescaled when they exceed full scale

---
 dsptoolbox/transfer_functions/transfer_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index fef4a36..be49ac6 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -663,7 +663,7 @@ def min_phase_from_mag(
     time_data = np.fft.irfft(
         mag_spectrum * np.exp(1j * phase), axis=0, n=original_length_time_data
     )
-    return ImpulseResponse.from_time_data(time_data, sampling_rate_hz)
+    return ImpulseResponse.from_time_data(time_data, sampling_rate_hz, False)
 
 
 def lin_phase_from_mag(
@@ -786,7 +786,7 @@ def lin_phase_from_mag(
     time_data = _pad_trim(
         time_data, int(2 * max(group_delay_to_use_s) * sampling_rate_hz + 0.5)
     )
-    return ImpulseResponse.from_time_data(time_data, sampling_rate_hz)
+    return ImpulseResponse.from_time_data(time_data, sampling_rate_hz, False)
 
 
 def min_phase_ir(
-- 
2.43.0


From 97e9628c5f4936deafeea1f78010b746f6b8f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 099/231] fix: harmonic_distortion_analysis rescaled THD+N when
 the harmonics exceed full scale

---
 dsptoolbox/transfer_functions/transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index be49ac6..665d99b 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1665,7 +1665,7 @@ def harmonic_distortion_analysis(
         np.nan_to_num(sp_thd, False, 0)
 
     # THD+N
-    thd_n = Signal(None, thd, ir2.sampling_rate_hz)
+    thd_n = Signal(None, thd, ir2.sampling_rate_hz, constrain_amplitude=False)
     thd_n.set_spectrum_parameters(**ir2._spectrum_parameters)
     f_thd_n, sp_thd_n = thd_n.get_spectrum()
     if not quadratic_spectrum:
-- 
2.43.0


From 5b433931778961eb92b5506cc422e058c94beebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 100/231] fix: ir_to_filter with linear phase covers the
 spectrum up to nyquist for odd lengths

---
 dsptoolbox/transfer_functions/transfer_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 665d99b..30fb7ea 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1237,10 +1237,12 @@ def ir_to_filter(
     if phase_mode == "min":
         signal = min_phase_ir(signal)
     elif phase_mode == "lin":
+        # Even length, so that the spectrum reaches the nyquist frequency
+        length_fft = len(signal) + len(signal) % 2
         signal = lin_phase_from_mag(
             Spectrum(
-                np.fft.rfftfreq(len(signal), 1 / signal.sampling_rate_hz),
-                np.abs(np.fft.rfft(signal.time_data, axis=0)),
+                np.fft.rfftfreq(length_fft, 1 / signal.sampling_rate_hz),
+                np.abs(np.fft.rfft(signal.time_data, length_fft, axis=0)),
             ),
             signal.sampling_rate_hz,
         )
-- 
2.43.0


From b6fe7c2209574719cafacf22b140ed9e1e21b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 101/231] fix: trim_ir depended on the absolute level of the
 impulse response

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index fbd491b..7596fb4 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -300,7 +300,7 @@ def _trim_ir(
     corr_coeff = np.zeros(len(window_lengths))
     for ind, window_length in enumerate(window_lengths):
         current_start_position = 0
-        current_window_mean_db = 0
+        current_window_mean_db = np.inf
 
         for _ in range(len(envelope) // window_length):
             new_window_mean_db = np.mean(
-- 
2.43.0


From 6aa303774c8c7fe93d767283c743162ee3bf2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 102/231] fix: minimum phase without real cepstrum returned
 half the phase or failed

---
 dsptoolbox/transfer_functions/transfer_functions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 30fb7ea..ecff75c 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -851,9 +851,13 @@ def min_phase_ir(
             False,
         )
         for ch in range(new_time_data.shape[1]):
-            new_time_data[:, ch] = min_phase_scipy(
-                sig.time_data[:, ch], method="hilbert", n_fft=length_fft
-            )[: new_time_data.shape[0]]
+            # Half-length filter has the square root of the magnitude response
+            half_filter = min_phase_scipy(
+                new_time_data[:, ch], method="hilbert", n_fft=length_fft
+            )
+            new_time_data[:, ch] = _pad_trim(
+                np.convolve(half_filter, half_filter), new_time_data.shape[0]
+            )
 
     if alpha != 1.0:
         new_time_data *= (alpha ** (-np.arange(new_time_data.shape[0])))[:, None]
@@ -974,6 +978,8 @@ def minimum_phase(
                 method="hilbert",
                 n_fft=padding_factor * len(signal),
             )
+            # Half-length filter has the square root of the magnitude response
+            temp = np.convolve(temp, temp)
             min_phases[:, n] = np.angle(
                 np.fft.rfft(_pad_trim(temp, signal.time_data.shape[0]))
             )
-- 
2.43.0


From 81f592ea893c259c631ea0bceea396de15b7ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 103/231] fix: min_phase_from_mag did not return the requested
 length

---
 .../transfer_functions/transfer_functions.py    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index ecff75c..11d3eaf 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -644,15 +644,14 @@ def min_phase_from_mag(
     - https://en.wikipedia.org/wiki/Minimum_phase
 
     """
-    # Use very conservative estimate for most cases
-    delta_f_hz = (
-        0.5 if ir_length_samples is None else sampling_rate_hz / ir_length_samples
-    )
-
-    # Frequency vector
-    f_vec, delta_f_hz, original_length_time_data = (
-        _get_frequency_vector_with_frequency_resolution(delta_f_hz, sampling_rate_hz)
-    )
+    if ir_length_samples is None:
+        # Use very conservative estimate for most cases
+        f_vec, _, original_length_time_data = (
+            _get_frequency_vector_with_frequency_resolution(0.5, sampling_rate_hz)
+        )
+    else:
+        f_vec = np.fft.rfftfreq(ir_length_samples, 1 / sampling_rate_hz)
+        original_length_time_data = ir_length_samples
 
     # Get interpolated magnitude spectrum
     mag_spectrum = spectrum.get_interpolated_spectrum(f_vec, SpectrumType.Magnitude)
-- 
2.43.0


From 4f1720705a41f2f085719724b8fb72131b5d2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 104/231] fix: group_delay changed the spectrum method of its
 input

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 11d3eaf..644ac3e 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -906,10 +906,7 @@ def group_delay(
     f = np.fft.rfftfreq(td.shape[0], 1 / signal.sampling_rate_hz)
 
     if not analytic_computation:
-        spec_parameters = signal._spectrum_parameters
-        signal.spectrum_method = SpectrumMethod.FFT
         sp = rfft_scipy(td, axis=0)
-        signal._spectrum_parameters = spec_parameters
 
         if remove_ir_latency:
             assert (
-- 
2.43.0


From 4dfd4f6ca6261e66c5d24573303353408ea516e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 105/231] fix: analytic group delay was evaluated at other
 frequencies than returned for odd lengths

---
 dsptoolbox/classes/filter_helpers.py              | 15 +++++++++++----
 .../transfer_functions/transfer_functions.py      |  4 +++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index f5ecb32..bbb987c 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -165,7 +165,9 @@ def _impulse(length_samples: int = 512, delay_samples: int = 0):
     return imp
 
 
-def _group_delay_filter(ba, length_samples: int = 512, fs_hz: int = 48000):
+def _group_delay_filter(
+    ba, length_samples: int | NDArray[np.float64] = 512, fs_hz: int = 48000
+):
     """Computes group delay using the method in
     https://www.dsprelated.com/freebooks/filters/Phase_Group_Delay.html.
     The implementation is mostly taken from `scipy.signal.group_delay` !
@@ -174,8 +176,9 @@ def _group_delay_filter(ba, length_samples: int = 512, fs_hz: int = 48000):
     ----------
     ba : array-like
         Array containing b (numerator) and a (denominator) for filter.
-    length_samples : int, optional
-        Length for the final vector. Default: 512.
+    length_samples : int, NDArray[np.float64], optional
+        Length for the final vector or normalized angular frequencies at which
+        to evaluate. Default: 512.
     fs_hz : int, optional
         Sampling frequency rate in Hz. Default: 48000.
 
@@ -188,7 +191,11 @@ def _group_delay_filter(ba, length_samples: int = 512, fs_hz: int = 48000):
 
     """
     # Frequency vector at which to evaluate
-    omega = np.linspace(0, np.pi, length_samples)
+    omega = (
+        np.linspace(0, np.pi, length_samples)
+        if np.ndim(length_samples) == 0
+        else np.asarray(length_samples)
+    )
     # Turn always to FIR
     c = np.convolve(ba[0], np.conjugate(ba[1][::-1]))
     cr = c * np.arange(len(c))  # Ramped coefficients
diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 644ac3e..30ffa01 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -924,7 +924,9 @@ def group_delay(
                 b = b[max(int(np.argmax(np.abs(b))) - 1, 0) :]
             a = [1]
             _, group_delays[:, n] = _group_delay_filter(
-                [b, a], len(f), signal.sampling_rate_hz
+                [b, a],
+                2 * np.pi * f / signal.sampling_rate_hz,
+                signal.sampling_rate_hz,
             )
 
     if smoothing != 0:
-- 
2.43.0


From 6dcac88cc246df1cac0e44bb92a07a66ffb2297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 106/231] fix: excess_group_delay was wrong at the highest bins
 when lengths differ

---
 dsptoolbox/transfer_functions/transfer_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 30ffa01..47240e9 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -23,7 +23,6 @@ from ._transfer_functions import (
 )
 from ..helpers.spectrum_utilities import (
     _correct_for_real_phase_spectrum,
-    _interpolate_fr,
 )
 from ..helpers.minimum_phase import (
     _get_minimum_phase_spectrum_from_real_cepstrum,
@@ -1080,7 +1079,10 @@ def excess_group_delay(
     # Min GD has fast FFT length, GD has fast RFFT length
     # => Interpolate if they do not match
     if len(f) != len(f_min):
-        gd = _interpolate_fr(f, gd, f_min, None, "linear")
+        # Hold the values at the edges of the frequency vector
+        gd = np.stack(
+            [np.interp(f_min, f, gd[:, ch]) for ch in range(gd.shape[1])], axis=1
+        )
 
     ex_gd = gd - min_gd
 
-- 
2.43.0


From 637d3bed087ab6cad708dc7425e0470fb97e7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 107/231] fix: the value at nyquist was lost when interpolating
 a spectrum due to rounding of its frequency

---
 dsptoolbox/classes/spectrum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index ee775e2..aa318a4 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -578,7 +578,14 @@ class Spectrum(MultichannelData):
             domain = InterpolationDomain.MagnitudePhase
 
         inds_outside_left = requested_frequency < self.frequency_vector_hz[0]
-        inds_outside_right = requested_frequency > self.frequency_vector_hz[-1]
+        # Tolerate rounding differences at the last frequency
+        last_frequency = self.frequency_vector_hz[-1]
+        requested_frequency = np.where(
+            np.isclose(requested_frequency, last_frequency, rtol=1e-12, atol=0.0),
+            last_frequency,
+            requested_frequency,
+        )
+        inds_outside_right = requested_frequency > last_frequency
         if self.__int_edges == InterpolationEdgeHandling.Error:
             assert 0 == np.sum(inds_outside_left | inds_outside_right), (
                 "Frequencies are not in the given range and edge handling "
-- 
2.43.0


From a1152c183178b201a9189db80f69e718b233e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 108/231] fix: decay fit for the compensation energy of the
 energy decay curve swapped slope and offset

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9b386d4..941b6d2 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1187,7 +1187,7 @@ def _compute_energy_decay_curve(
     signal_db = to_db(time_smoothing(signal_power, fs_hz, 20e-3), False)
     start_index_int = np.where(dynamic_range_db + np.min(signal_db) > signal_db)[0][0]
     time_vector = np.linspace(0, len(signal_power) / fs_hz, len(signal_power))
-    p = np.polyfit(time_vector[start_index_int:], signal_db[start_index_int:], 1)
+    p = np.polyfit(time_vector[start_index_int:], signal_db[start_index_int:], 1)[::-1]
     avoid_corrections = p[1] >= 0.0  # Check if slope makes sense
 
     # Lundeby's compensation energy
@@ -1195,7 +1195,7 @@ def _compute_energy_decay_curve(
     t_1 = (to_db(noise_power, False) - p[0]) / p[1]
     avoid_corrections |= t_1 <= 0.0  # Check if intersection time makes sense
     A = np.log(noise_power / B) / t_1
-    e_comp = -B / A * np.exp(A * t_1)
+    e_comp = -B / A * np.exp(A * time_vector[-1])  # From truncation on
 
     # Correct noise
     signal_power -= noise_power
-- 
2.43.0


From eda4356cbc69cb760a11dd242d0930e3dd5ce610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 109/231] fix: reverberation time failed for untrimmed
 responses starting at their first sample

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 941b6d2..031c34b 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1176,7 +1176,7 @@ def _compute_energy_decay_curve(
         noise_power = np.var(time_data[stopping_index:])
     else:
         # Assume there is no noise in the end, take at least until the start
-        noise_power = np.var(time_data[:start_index])
+        noise_power = np.var(time_data[:start_index]) if start_index > 0 else 0.0
 
     signal_power = time_data[start_index:stopping_index] ** 2.0
 
-- 
2.43.0


From 4a1ee409f9d8413f936be1ce2c654f977027bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 110/231] fix: reverb_time ignored the passed start of the
 impulse response

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 031c34b..d2df976 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -57,7 +57,7 @@ def _reverb(
     acoustical parameters. pp. 22.
 
     """
-    edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz)
+    edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz, ir_start)
     time_vector = np.linspace(0, len(edc) / fs_hz, len(edc))
 
     # Reverb
@@ -1141,11 +1141,12 @@ def _compute_energy_decay_curve(
     time_data: NDArray[np.float64],
     trim_automatically: bool,
     fs_hz: int,
+    start_index: int | None = None,
 ) -> NDArray[np.float64]:
     """Get the energy decay curve. The start is found at -20 dB relative to
     peak according to DIN EN ISO 3382. A noise correction term according to [1]
     is applied, and the compensation energy for a truncated IR according to [2]
-    is also regarded.
+    is also regarded. When a start index is passed, it is used instead.
 
     References
     ----------
@@ -1168,7 +1169,10 @@ def _compute_energy_decay_curve(
         stopping_index = len(time_data)
 
     # Find start
-    start_index = _find_ir_start(time_data)
+    detected_start_index = _find_ir_start(time_data)
+    if start_index is None:
+        start_index = detected_start_index
+    noise_end = min(start_index, detected_start_index)
 
     # Get noise estimation
     if stopping_index != len(time_data):
@@ -1176,7 +1180,7 @@ def _compute_energy_decay_curve(
         noise_power = np.var(time_data[stopping_index:])
     else:
         # Assume there is no noise in the end, take at least until the start
-        noise_power = np.var(time_data[:start_index]) if start_index > 0 else 0.0
+        noise_power = np.var(time_data[:noise_end]) if noise_end > 0 else 0.0
 
     signal_power = time_data[start_index:stopping_index] ** 2.0
 
-- 
2.43.0


From 0f87e6af21c5db6144eac973b8c231c3e7dc1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 111/231] fix: descriptors ignored automatic trimming for
 multiband signals

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 3f66b86..6bee1f9 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -510,7 +510,7 @@ def descriptors(
         )
         desc = np.zeros((rir.number_of_bands, rir.number_of_channels))
         for ind, b in enumerate(rir):
-            desc[ind, :] = descriptors(b, descriptor=descriptor)
+            desc[ind, :] = descriptors(b, descriptor, automatic_trimming_rir)
     else:
         raise TypeError("RIR must be of type Signal or MultiBandSignal")
     return desc
-- 
2.43.0


From 0c2a21495e8e997c8ac071f216dc57e49a5e7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 112/231] fix: bass ratio did not use T20 as documented

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 6bee1f9..6abbd31 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -534,7 +534,7 @@ def _bass_ratio(rir: ImpulseResponse) -> NDArray[np.float64]:
         [125, 1000], filter_order=10, sampling_rate_hz=rir.sampling_rate_hz
     )[0]
     rir_multi = fb.filter_signal(rir, FilterBankMode.Parallel, zero_phase=True)
-    rt, _ = reverb_time(rir_multi)
+    rt, _ = reverb_time(rir_multi, ReverbTime.T20)
     br = np.zeros(rir.number_of_channels)
     for ch in range(rir.number_of_channels):
         br[ch] = (rt[0, ch] + rt[1, ch]) / (rt[2, ch] + rt[3, ch])
-- 
2.43.0


From c727c2e49e9ba39375da979cc1df425e95233400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 113/231] fix: find_modes changed the spectrum method of its
 input and depended on its spectrum parameters

---
 dsptoolbox/room_acoustics/room_acoustics.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 6abbd31..1d12471 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -25,7 +25,6 @@ from ..helpers.gain_and_level import to_db
 from ..standard.enums import (
     IirDesignMethod,
     FilterPassType,
-    SpectrumMethod,
     FilterBankMode,
 )
 from .enums import ReverbTime, RoomAcousticsDescriptor
@@ -180,12 +179,11 @@ def find_modes(
         "Range of frequencies must have a " + "minimum and a maximum value"
     )
     assert type(signal) is ImpulseResponse, "This is only valid for an impulse response"
-    signal.spectrum_method = SpectrumMethod.FFT
-
     # Pad signal to have a resolution of around 1 Hz
     length = signal.sampling_rate_hz
     signal = pad_trim(signal, length)
-    f, sp = signal.get_spectrum()
+    f = np.fft.rfftfreq(length, 1.0 / signal.sampling_rate_hz)
+    sp = np.fft.rfft(signal.time_data, axis=0)
 
     # Setting up frequency range
     ids = find_nearest_points_index_in_vector(f_range_hz, f)
-- 
2.43.0


From 467aa565ee2691fffdc5e9a06a23f714b8a083b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 114/231] fix: complex mode indicator was not squared for
 multiple channels so that the prominence was halved

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index d2df976..1a32fc1 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -153,9 +153,9 @@ def _complex_mode_identification(
     for ind in range(cmif.shape[0]):
         s = np.linalg.svd(H[:, :, ind], compute_uv=False, hermitian=False)
         if maximum_singular_value:
-            cmif[ind] = s.max()
+            cmif[ind] = s.max() ** 2
         else:
-            cmif[ind] = s[0]
+            cmif[ind] = s[0] ** 2
     return cmif
 
 
-- 
2.43.0


From d08f341c2000f3518f282f25ef1a4aa5ca4916c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 115/231] fix: synthetic rir lost image sources that fall on
 the same sample

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 1a32fc1..daea710 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -265,7 +265,12 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
                 # Distances
                 ds = get_distance(l0)
                 # Write into RIR
-                rir_vec[seconds2samples(ds / c)] += get_damping(l0) / (4 * np.pi * ds)
+                # Images might share a sample
+                np.add.at(
+                    rir_vec,
+                    seconds2samples(ds / c),
+                    get_damping(l0) / (4 * np.pi * ds),
+                )
     return rir_vec
 
 
-- 
2.43.0


From dd5baf802a824c3dc625060c3cc97110418bdcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 116/231] fix: synthetic rir failed for elongated rooms with
 images beyond its length

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index daea710..a705207 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -266,11 +266,10 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
                 ds = get_distance(l0)
                 # Write into RIR
                 # Images might share a sample
-                np.add.at(
-                    rir_vec,
-                    seconds2samples(ds / c),
-                    get_damping(l0) / (4 * np.pi * ds),
-                )
+                samples = seconds2samples(ds / c)
+                amplitudes = get_damping(l0) / (4 * np.pi * ds)
+                inside = samples < len(rir_vec)
+                np.add.at(rir_vec, samples[inside], amplitudes[inside])
     return rir_vec
 
 
-- 
2.43.0


From fe44774401ed2dcca19ee6612434c2b2ff0a8700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 117/231] fix: synthetic rir exchanged the absorption of the
 walls along x and y

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index a705207..e111c8c 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -198,8 +198,9 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
         beta_1 = np.ones(3) * beta
         beta_2 = np.ones(3) * beta
     elif len(beta) == 6:
-        beta_1 = np.array([beta[1], beta[3], beta[4]])  # South  # West  # Floor
-        beta_2 = np.array([beta[0], beta[2], beta[5]])  # North  # East  # Ceiling
+        # x, y, z – walls at the origin and opposite to it
+        beta_1 = np.array([beta[3], beta[1], beta[4]])  # West  # South  # Floor
+        beta_2 = np.array([beta[2], beta[0], beta[5]])  # East  # North  # Ceiling
     else:
         raise ValueError("Wrong length for absorption coefficients")
 
-- 
2.43.0


From a524b9b1d1c140b6c57ef97884346605bfcf021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 118/231] fix: points with negative coordinates were regarded
 as being inside the room

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index e111c8c..31bbf27 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -451,7 +451,9 @@ class ShoeboxRoom(Room):
 
         """
         coordinates_m = np.squeeze(coordinates_m)
-        return bool(np.all(coordinates_m <= self.dimensions_m))
+        return bool(
+            np.all(coordinates_m >= 0.0) and np.all(coordinates_m <= self.dimensions_m)
+        )
 
     def get_mixing_time(
         self,
-- 
2.43.0


From 07068b5f33a3218f155e9293860ce47ea73b6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 119/231] fix: add_detailed_absorption changed the dictionary
 of the user

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 31bbf27..7a8d7fe 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -745,6 +745,7 @@ class ShoeboxRoom(Room):
         )
 
         # Check absorption values and derive number of bands
+        detailed_absorption = detailed_absorption.copy()
         number_of_bands = 1
         for i in detailed_absorption:
             ab = np.atleast_1d(detailed_absorption[i])
-- 
2.43.0


From 6f12af54fd77d69940aa47711d82406ab925aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 120/231] fix: convolve_rir_on_signal returned nan for silent
 channels

---
 dsptoolbox/room_acoustics/room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 1d12471..5c89e55 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -258,6 +258,7 @@ def convolve_rir_on_signal(
     if keep_peak_level:
         old_peak_levels = np.max(np.abs(signal.time_data), axis=0)
         new_peak_levels = np.max(np.abs(new_time_data), axis=0)
+        new_peak_levels[new_peak_levels == 0.0] = 1.0  # Silent channels
         new_time_data *= (old_peak_levels / new_peak_levels)[None, ...]
 
     return signal.copy_with_new_time_data(new_time_data)
-- 
2.43.0


From 15851ec260d01d1d6d9df31c64aa0ba82be9fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 121/231] fix: synthetic rir failed with detailed absorption
 defined for a single band

---
 dsptoolbox/room_acoustics/room_acoustics.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 5c89e55..4471eda 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -395,18 +395,20 @@ def generate_synthetic_rir(
         ), "Given room has no detailed absorption dictionary"
         # Create filter bank
         freqs = room.detailed_absorption["center_frequencies"][:-1] * np.sqrt(2)
-        fb = linkwitz_riley_crossovers(
-            crossover_frequencies_hz=freqs,
-            order=12,
-            sampling_rate_hz=sampling_rate_hz,
-        )
+        number_of_bands = len(freqs) + 1
+        if number_of_bands > 1:
+            fb = linkwitz_riley_crossovers(
+                crossover_frequencies_hz=freqs,
+                order=12,
+                sampling_rate_hz=sampling_rate_hz,
+            )
 
         # Accumulator
         rir = np.zeros(total_length_samples)
 
         print("\nRIR Generator\n")
-        for ind in range(fb.number_of_bands):
-            print(f"Band {ind + 1} of {fb.number_of_bands} is being computed...")
+        for ind in range(number_of_bands):
+            print(f"Band {ind + 1} of {number_of_bands} is being computed...")
             alphas = room.detailed_absorption["absorption_matrix"][:, ind]
             rir_band = _generate_rir(
                 room_dim=room.dimensions_m,
@@ -420,6 +422,9 @@ def generate_synthetic_rir(
             rir_band = _pad_trim(rir_band, total_length_samples)
             # Prune possible nan values
             np.nan_to_num(rir_band, copy=False, nan=0)
+            if number_of_bands == 1:
+                rir += rir_band
+                continue
             rir0 = ImpulseResponse(None, rir_band, sampling_rate_hz)
             rir_multi = fb.filter_signal(rir0, zero_phase=True)
             rir += rir_multi.bands[ind].time_data[:, 0]
-- 
2.43.0


From 8fec97eb868744027e15468fe97798bba07ac76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 122/231] fix: reverberant tail was nan when there were no
 reflections around the mixing time

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 7a8d7fe..20c3d0c 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -885,7 +885,11 @@ def _add_reverberant_tail_noise(
     window = rir[
         -noise_length - window_length // 2 : -noise_length + window_length // 2
     ]
-    gain = np.median(window[window != 0]) * 0.5
+    window = window[window != 0]
+    if len(window) == 0:  # No reflections there, take the latest ones before
+        window = rir[:-noise_length]
+        window = window[window != 0][-window_length:]
+    gain = np.median(window) * 0.5
     noise *= gain
 
     # Apply noise
-- 
2.43.0


From 221504b0a3fb19f734e3f1c929257572fbf8c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 123/231] fix: mix_sources_on_array removed the first source
 from the list of the user and trimmed emitted signals

---
 dsptoolbox/beamforming/beamforming.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index b1ef07c..6a72979 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1490,10 +1490,9 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
-    sources.pop(0)
 
     # Add all other sources progressively checking for shortest duration
-    for s in sources:
+    for s in sources[1:]:
         # Warning if lengths do not match
         if total_length_samples != s.emitted_signal.time_data.shape[0]:
             warn(
@@ -1504,7 +1503,9 @@ def mix_sources_on_array(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
             multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
-            s.emitted_signal = pad_trim(s.emitted_signal, total_length_samples)
+            s = MonopoleSource(
+                pad_trim(s.emitted_signal, total_length_samples), s.coordinates
+            )
         # Add to multi-channel data
         ns = s.get_signals_on_array(mics, c)
         multi_channel_sig.time_data += ns.time_data
-- 
2.43.0


From bec1dd5d19f2944f6573ef3fa5a483d3358e7d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 124/231] fix: distances between coincident or near points were
 nan or inaccurate

---
 dsptoolbox/helpers/other.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..0134571 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -2,6 +2,7 @@ from os import sep
 import numpy as np
 from numpy.typing import NDArray
 from scipy.linalg import toeplitz as toeplitz_scipy
+from scipy.spatial.distance import cdist
 
 from .gain_and_level import to_db
 
@@ -146,11 +147,7 @@ def _euclidean_distance_matrix(x: NDArray[np.float64], y: NDArray[np.float64]):
     """
     assert x.ndim == 2 and y.ndim == 2, "Inputs must have exactly two dimensions"
     assert x.shape[1] == y.shape[1], "Dimensions do not match"
-    return np.sqrt(
-        np.sum(x**2, axis=1, keepdims=True)
-        + np.sum(y.T**2, axis=0, keepdims=True)
-        - 2 * x @ y.T
-    )
+    return cdist(x, y)
 
 
 def _get_fractional_octave_bandwidth(
-- 
2.43.0


From 3674d25e417fb7bcde2a53cac45c66586c04511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 125/231] fix: grids with a single point were refused

---
 dsptoolbox/beamforming/_beamforming.py |  9 +++++----
 dsptoolbox/beamforming/beamforming.py  | 15 ++++++++-------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 4967479..3abd9e0 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -41,9 +41,9 @@ class BasePoints:
         """
         for i in ("x", "y", "z"):
             assert i in positions, f"{i} values are missing"
-        x = np.asarray(positions["x"]).squeeze()[None, ...]
-        y = np.asarray(positions["y"]).squeeze()[None, ...]
-        z = np.asarray(positions["z"]).squeeze()[None, ...]
+        x = np.atleast_1d(np.asarray(positions["x"]).squeeze())[None, ...]
+        y = np.atleast_1d(np.asarray(positions["y"]).squeeze())[None, ...]
+        z = np.atleast_1d(np.asarray(positions["z"]).squeeze())[None, ...]
         assert (
             x.shape == y.shape and x.shape == z.shape
         ), "Shapes of x, y or z are not compatible"
@@ -111,7 +111,8 @@ class BasePoints:
         assert (
             point.shape[1] == self.coordinates.shape[1]
         ), f"Invalid shapes: {point.shape}, {self.coordinates.shape}"
-        return _euclidean_distance_matrix(self.coordinates, point).squeeze()
+        distances = _euclidean_distance_matrix(self.coordinates, point)
+        return distances[:, 0] if distances.shape[1] == 1 else distances
 
     # ======== Plotting =======================================================
     def plot_points(self, projection: str | None = None):
diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 6a72979..5216aff 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -875,7 +875,7 @@ class BeamformerDASFrequency(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1002,7 +1002,7 @@ class BeamformerCleanSC(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1119,7 +1119,7 @@ class BeamformerOrthogonal(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1215,7 +1215,7 @@ class BeamformerFunctional(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1309,7 +1309,7 @@ class BeamformerMVDR(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1363,6 +1363,7 @@ class BeamformerDASTime(BaseBeamformer):
 
         # Get maximal distance in order to delay all signals to that
         ds = self.mics.get_distances_to_point(self.grid.coordinates)
+        ds = ds.reshape(self.mics.number_of_points, self.grid.number_of_points)
         min_distance = np.min(ds)
         r0 = np.max(ds)
 
@@ -1643,7 +1644,7 @@ def true_power_steering(
     rti = grid.get_distances_to_point(mic.coordinates).T
 
     # rtj vector with shape (ngrid)
-    rtj = np.sum(1 / mic.get_distances_to_point(grid.coordinates) ** 2, axis=0)
+    rtj = np.sum(1 / rti**2, axis=0)
 
     # Formulate vector
     return (
@@ -1694,7 +1695,7 @@ def true_location_steering(
     rti = grid.get_distances_to_point(mic.coordinates).T
 
     # rtj vector with shape (ngrid)
-    rtj = N * np.sum(1 / mic.get_distances_to_point(grid.coordinates) ** 2, axis=0)
+    rtj = N * np.sum(1 / rti**2, axis=0)
 
     return (
         1
-- 
2.43.0


From 33b054c74a541b8b3eb74d7c5f6234add10c6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 126/231] fix: aperture, minimum distance and center of an
 array were stale after changing its coordinates

---
 dsptoolbox/beamforming/beamforming.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 5216aff..a45e7ff 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -479,6 +479,15 @@ class MicArray(BasePoints):
         self.__min_distance = None
 
     # ======== Properties =====================================================
+    @BasePoints.coordinates.setter
+    def coordinates(self, new_r):
+        BasePoints.coordinates.fset(self, new_r)
+        # These have to be computed again
+        self.__array_center_coordinates = None
+        self.__array_center_channel_number = None
+        self.__aperture = None
+        self.__min_distance = None
+
     @property
     def aperture(self):
         if self.__aperture is None:
-- 
2.43.0


From fcb45defa996a826c90b46595ad87662e40127c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 127/231] fix: plot_map of grids failed due to an unsupported
 argument

---
 dsptoolbox/beamforming/beamforming.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index a45e7ff..160d01f 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -210,7 +210,6 @@ class Regular2DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
@@ -358,7 +357,6 @@ class Regular3DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
-- 
2.43.0


From 3faf299306cbf195f7f8bc6322d835645990dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 128/231] fix: orthogonal beamforming replaced a strong source
 by weaker eigenvalues located at the same point

---
 dsptoolbox/beamforming/beamforming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 160d01f..a402ec2 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1120,7 +1120,7 @@ class BeamformerOrthogonal(BeamformerGridded):
                 # Find largest value
                 source_ind = np.argmax(eig_map[eig, :, find])
                 # Scale by eigenvalue and pass to final map
-                map[source_ind, find] = eig_map[eig, source_ind, find] * w[-eig - 1]
+                map[source_ind, find] += eig_map[eig, source_ind, find] * w[-eig - 1]
 
         # Integrate over all frequencies
         if number_frequency_bins > 1:
-- 
2.43.0


From 76efa2322f5eb1f7309dd071462629a51cbf4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 129/231] fix: clean-sc removed too much of each source when
 the diagonal was kept

---
 dsptoolbox/beamforming/_beamforming.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 3abd9e0..4aedfbd 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -274,10 +274,14 @@ def _clean_sc_deconvolve(
         D_ = D[1, :, :] @ w_max / maximum_power
 
         # Computation of G, according to [1], only a couple iterations
-        # are needed; following acoular, 20 are used here
-        for _ in range(20):
-            H = h_.conjugate() * h_
-            h_ = (D_ + H * w_max) / np.sqrt(1 + H @ w_max_squared)
+        # are needed; following acoular, 20 are used here. The solution is
+        # direct when the diagonal of the CSM has not been removed
+        if remove_diagonal_csm:
+            for _ in range(20):
+                H = h_.conjugate() * h_
+                h_ = (D_ + H * w_max) / np.sqrt(1 + H @ w_max_squared)
+        else:
+            h_ = D_
 
         G = np.outer(h_, h_.conjugate()) * maximum_power
 
-- 
2.43.0


From 07bdb7088b0756d7def6c94033d22d64674c98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 130/231] fix: bark and erb warping factors expect the sampling
 rate in kHz

---
 dsptoolbox/transforms/_transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/_transforms.py b/dsptoolbox/transforms/_transforms.py
index 2073c07..aa7a7f2 100644
--- a/dsptoolbox/transforms/_transforms.py
+++ b/dsptoolbox/transforms/_transforms.py
@@ -447,12 +447,12 @@ def _get_warping_factor(warping_factor: float | str, fs_hz: int) -> float:
         if "bark" in warping_factor:
             # Eq. (26)
             warping_factor = -1.0 * (
-                1.0674 * (2.0 / np.pi * np.arctan(0.06583 * fs_hz)) ** 0.5 - 0.1916
+                1.0674 * (2.0 / np.pi * np.arctan(0.06583 * fs_hz / 1e3)) ** 0.5 - 0.1916
             )
         elif "erb" in warping_factor:
             # Eq. (30)
             warping_factor = -1.0 * (
-                0.7446 * (2.0 / np.pi * np.arctan(0.1418 * fs_hz)) ** 0.5 + 0.03237
+                0.7446 * (2.0 / np.pi * np.arctan(0.1418 * fs_hz / 1e3)) ** 0.5 + 0.03237
             )
         else:
             raise ValueError("Warping factor approximation is not supported")
-- 
2.43.0


From b0a8099d718fb1aeb560e1c1856d6e9f31154ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 131/231] fix: warp refused the warping factor that it returned

---
 dsptoolbox/transforms/_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/_transforms.py b/dsptoolbox/transforms/_transforms.py
index aa7a7f2..4627ff5 100644
--- a/dsptoolbox/transforms/_transforms.py
+++ b/dsptoolbox/transforms/_transforms.py
@@ -439,7 +439,7 @@ def _get_warping_factor(warping_factor: float | str, fs_hz: int) -> float:
       697 - 708. 10.1109/89.799695.
 
     """
-    if type(warping_factor) is float:
+    if isinstance(warping_factor, float):
         assert np.abs(warping_factor) < 1.0, "Warping factor has to be in ]-1; 1["
     elif type(warping_factor) is str:
         warping_factor = warping_factor.lower()
-- 
2.43.0


From 1b04d61805a3037dccd6400ccea573f540eb38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 132/231] fix: burg estimation returned as many coefficients as
 samples

---
 dsptoolbox/helpers/ar_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index eef3a01..a5cff73 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -166,7 +166,7 @@ def _burg_ar_estimation(
         ar_coeffs = np.zeros((order + 1, 1))
     else:
         shape = list(time_data.shape)
-        shape[0] += 1
+        shape[0] = order + 1
         ar_coeffs = np.zeros(tuple(shape))
 
     ar_coeffs[0] = 1.0
-- 
2.43.0


From 772a513d94ab1d6d7311c55b52e5410838c0b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 133/231] fix: burg estimation returned summed energies instead
 of the variance of the prediction error

---
 dsptoolbox/helpers/ar_estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index a5cff73..4a0b1f9 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -202,4 +202,6 @@ def _burg_ar_estimation(
         fwd_pred_error = fwd_pred_error[1:]
         bwd_pred_error = bwd_pred_error[:-1]
 
-    return ar_coeffs.squeeze() if onedim else ar_coeffs, den[0]
+    # Mean power of the forward and backward prediction errors
+    variance = den[0] / (2 * (time_data.shape[0] - order))
+    return ar_coeffs.squeeze() if onedim else ar_coeffs, variance
-- 
2.43.0


From 73082e0def61a7a3655bd55fdfbe66ef8274af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 134/231] fix: linear prediction of silent frames gave NaN

---
 dsptoolbox/helpers/ar_estimation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index 4a0b1f9..fcc57be 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -28,21 +28,23 @@ def _levison_durbin_recursion(
     prediction_error = autocorrelation[0, ...].copy()  # Signal variance
     autocorr_coefficients = autocorrelation[1:, ...].copy()
 
+    silence = prediction_error == 0.0  # Nothing to predict
+
     num_coefficients = autocorr_coefficients.shape[0]
     ar_parameters = np.zeros_like(autocorr_coefficients)
 
     for order in range(num_coefficients):
         reflection_value = autocorr_coefficients[order].copy()
-        if order == 0:
-            reflection_coefficient = -reflection_value / prediction_error
-        else:
+        if order > 0:
             for lag in range(order):
                 reflection_value += (
                     ar_parameters[lag] * autocorr_coefficients[order - lag - 1]
                 )
-            reflection_coefficient = -reflection_value / prediction_error
+        reflection_coefficient = -reflection_value / np.where(
+            silence, 1.0, prediction_error
+        )
         prediction_error *= 1.0 - reflection_coefficient**2.0
-        if np.any(prediction_error <= 0):
+        if np.any((prediction_error <= 0) & ~silence):
             raise ValueError("Invalid prediction error: Singular Matrix")
         ar_parameters[order] = reflection_coefficient
 
-- 
2.43.0


From 015798673c240c40c860d406664547075bcac7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 135/231] fix: warp ignored total lengths longer than the
 signal

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 98a59d3..d9b9909 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1130,7 +1130,7 @@ def warp(
 
     warped_ir = ir.copy_with_new_time_data(
         _warp_time_series(
-            td if total_length is None else td[:total_length, ...],
+            td if total_length is None else _pad_trim(td, total_length),
             warping_factor,
         )
     )
-- 
2.43.0


From 0eac01be39bb1f0a6bc6cc07a81c4c7224de59b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 136/231] fix: lpc returned no coefficients together with the
 synthesized signal

---
 dsptoolbox/transforms/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index d9b9909..78c0d92 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1245,7 +1245,7 @@ def lpc(
     Returns
     -------
     a_coefficients : NDArray[np.float64]
-        LP coefficients with shape (time window, coefficient, channel).
+        LP coefficients with shape (coefficient, time window, channel).
     variances : NDArray[np.float64]
         Variances (quadratic) of the source with shape (time window, channel).
     reconstructed_signal : Signal
@@ -1291,7 +1291,11 @@ def lpc(
     synthesized_signal = _reconstruct_framed_signal(
         synthesized_signal, hop_size_samples, window, len(signal)
     )
-    return Signal.from_time_data(synthesized_signal, signal.sampling_rate_hz)
+    return (
+        a,
+        var,
+        Signal.from_time_data(synthesized_signal, signal.sampling_rate_hz),
+    )
 
 
 def dft(signal: Signal, frequency_vector_hz: NDArray[np.float64]):
-- 
2.43.0


From 553619175845aedc7f8d91b7bc06cdfc5b70e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 137/231] fix: synthesized signal of lpc was dominated by
 amplified edges

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 78c0d92..e67f3dc 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1282,7 +1282,9 @@ def lpc(
     synthesized_signal = np.zeros_like(td)
     for channel in range(td.shape[2]):
         for n_window in range(td.shape[1]):
+            # The analyzed frame was windowed, so is the source
             source = np.random.normal(0.0, var[n_window, channel] ** 0.5, td.shape[0])
+            source *= window / np.mean(window**2.0) ** 0.5
             synthesized_signal[:, n_window, channel] = lfilter(
                 [1.0],
                 a[:, n_window, channel],
-- 
2.43.0


From f2991d8563612be1537010aefee70a937929ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 138/231] fix: mel filters of narrow bands were empty or NaN

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index e67f3dc..2133b3a 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -273,6 +273,8 @@ def mel_filterbank(
         mel_filters[n, inds[ni] : inds[ni + 1]] = np.linspace(
             1, 0, inds[ni + 1] - inds[ni], endpoint=False
         )
+        # Bands narrower than the frequency resolution
+        mel_filters[n, inds[ni]] = 1.0
         if normalize:
             mel_filters[n, :] /= np.sum(mel_filters[n, :])
     return mel_filters, mel_center_freqs[1:-1]
-- 
2.43.0


From 7e09e2475f99dfd2817ba4710659ff6e4fe12f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 139/231] fix: mel and chroma features squared spectrograms
 with power scaling again

---
 dsptoolbox/transforms/transforms.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2133b3a..1632618 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -110,6 +110,14 @@ def from_complex_cepstrum(
     )
 
 
+def _get_power(signal: Signal, spectrogram: NDArray) -> NDArray[np.float64]:
+    """Power of a spectrogram, which might already contain power values due
+    to its scaling."""
+    if signal._spectrogram_parameters["scaling"].is_amplitude_scaling():
+        return np.abs(spectrogram) ** 2.0
+    return np.abs(spectrogram)
+
+
 def log_mel_spectrogram(
     s: Signal,
     channel: int = 0,
@@ -177,7 +185,7 @@ def log_mel_spectrogram(
     time_s, f_hz, sp = s.get_spectrogram()
 
     mfilt, f_mel = mel_filterbank(f_hz, range_hz, n_bands, normalize=True)
-    log_mel_sp = np.tensordot(mfilt, np.abs(sp) ** 2.0, axes=(-1, 0))
+    log_mel_sp = np.tensordot(mfilt, _get_power(s, sp), axes=(-1, 0))
 
     log_mel_sp = to_db(log_mel_sp, False)
 
@@ -419,7 +427,7 @@ def mfcc(
         f_mel = np.array([0, mel_filters.shape[0]])
 
     # Convert from Hz to Mel
-    sp = np.tensordot(mel_filters, np.abs(sp) ** 2.0, axes=(-1, 0))
+    sp = np.tensordot(mel_filters, _get_power(signal, sp), axes=(-1, 0))
 
     # Get Log power spectrum
     log_sp = to_db(sp, False)
@@ -653,7 +661,7 @@ def chroma_stft(
     t, f, stft = signal.get_spectrogram()
 
     # Energy
-    stft = np.abs(stft) ** 2
+    stft = _get_power(signal, stft)
 
     # Get frequencies
     pitch_frequencies = _pitch2frequency(tuning_a_hz)
-- 
2.43.0


From 18b7843e162d66bf0931fbcc7e24c9eefe059516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 140/231] fix: log_mel_spectrogram and mfcc changed the
 parameters of the passed signal

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 1632618..1717b29 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -181,6 +181,7 @@ def log_mel_spectrogram(
 
     """
     if stft_parameters is not None:
+        s = s.copy()
         s.set_spectrogram_parameters(**stft_parameters)
     time_s, f_hz, sp = s.get_spectrogram()
 
@@ -413,6 +414,7 @@ def mfcc(
 
     """
     if stft_parameters is not None:
+        signal = signal.copy()
         signal.set_spectrogram_parameters(**stft_parameters)
     time_s, f, sp = signal.get_spectrogram()
 
-- 
2.43.0


From e07866dd1a1a8cfeb01127e0e7a8743ae1237bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 141/231] fix: waterfall plots of channels other than the first
 and of power spectrograms

---
 dsptoolbox/transforms/transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 1717b29..431bf17 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -327,13 +327,15 @@ def plot_waterfall(
         sig.set_spectrogram_parameters(**stft_parameters)
     t, f, stft = sig.get_spectrogram()
 
-    amplitude_scaling = sig.spectrum_scaling.is_amplitude_scaling()
+    amplitude_scaling = sig._spectrogram_parameters[
+        "scaling"
+    ].is_amplitude_scaling()
     fig, ax = plt.subplots(figsize=(10, 8), subplot_kw=dict(projection="3d"))
     tt, ff = np.meshgrid(t, f)
     ax.plot_surface(
         tt,
         ff,
-        to_db(stft[..., channel], amplitude_scaling, dynamic_range_db),
+        to_db(stft[..., 0], amplitude_scaling, dynamic_range_db),
         cmap="magma",
     )
     ax.set_xlabel("Time / s")
-- 
2.43.0


From 1c03a95ad717ee950179f93e35310ad499120970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 142/231] fix: vqt failed for a selection of channels

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 431bf17..dc5922e 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -914,7 +914,7 @@ def vqt(
 
     octs = octaves[1] - octaves[0] + 1
     cqt = np.zeros(
-        (0, signal.time_data.shape[0], signal.number_of_channels),
+        (0, signal.time_data.shape[0], td.shape[1]),
         dtype=np.complex128,
     )
 
-- 
2.43.0


From 57efbaf7e1a807d084bf01de38f0f3c581482da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 143/231] fix: frequency vector of vqt did not match its bins

---
 dsptoolbox/transforms/transforms.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index dc5922e..4e00df0 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -942,9 +942,7 @@ def vqt(
 
     # Invert frequency axis
     cqt = np.flip(cqt, axis=0)
-    f = a4_tuning * 2 ** (
-        np.arange(octaves[0] - 4 - 9 / 12, octaves[1] - 4 + 2 / 12, 1 / 12)
-    )
+    f = highest_f * 2 ** (-np.arange(cqt.shape[0])[::-1] / bins_per_octave)
     return f, cqt
 
 
-- 
2.43.0


From a0d7cb15b6c28ef2bd1a95139436792e31899fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 144/231] fix: synchrosqueezing assigned high frequencies to
 rows that were too low

---
 dsptoolbox/transforms/_transforms.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/transforms/_transforms.py b/dsptoolbox/transforms/_transforms.py
index 4627ff5..3549701 100644
--- a/dsptoolbox/transforms/_transforms.py
+++ b/dsptoolbox/transforms/_transforms.py
@@ -268,12 +268,11 @@ def _squeeze_scalogram(
     inds = scalpow > 1e-40
 
     # Phase Transform
-    ph = np.gradient(scalogram, axis=1)
+    ph = np.zeros(scalogram.shape)
+    ph[:, :-1, :] = np.angle(scalogram[:, 1:, :] * scalogram[:, :-1, :].conj())
+    ph[:, -1:, :] = ph[:, -2:-1, :]
     ph[~inds] = 0
-    # Since only imaginary part needed -> computation could be improved
-    ph[inds] = (ph[inds] / scalogram[inds]).imag / 2 / np.pi
-    # Prune imaginary part
-    ph = np.abs(ph.real)
+    ph = np.abs(ph) / 2 / np.pi
     ph *= fs  # Scale to represent physical frequencies
 
     # Normalization factor
-- 
2.43.0


From fc0873fe2fc06380510e88238b6ab5a614e4e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 145/231] fix: white noise was missing its frequencies below 15
 Hz

---
 dsptoolbox/generators/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index a8414e2..8f1f4e3 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -94,7 +94,7 @@ def noise(
     # frequencies
     id_low = np.argmin(np.abs(f - 15))
     mag[0] = 0
-    if type_of_noise != NoiseType.White or type_of_noise != 0.0:
+    if type_of_noise != NoiseType.White and type_of_noise != 0.0:
         mag[:id_low] *= 1e-20
 
     ph = np.random.uniform(-np.pi, np.pi, (len(f), number_of_channels))
-- 
2.43.0


From b69cde85c52f59f33d958b06d6ab87e75459c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 146/231] fix: short colored noises were NaN

---
 dsptoolbox/generators/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 8f1f4e3..e814d73 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -92,7 +92,7 @@ def noise(
     # Set to 15 Hz to cover whole audible spectrum but without
     # numerical instabilities because of large values in lower
     # frequencies
-    id_low = np.argmin(np.abs(f - 15))
+    id_low = max(np.argmin(np.abs(f - 15)), 1)
     mag[0] = 0
     if type_of_noise != NoiseType.White and type_of_noise != 0.0:
         mag[:id_low] *= 1e-20
-- 
2.43.0


From a1d8ef1d6eae76c233a6d8236386b994be26f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 147/231] fix: noise did not reach its peak level when its peak
 lay within the fades

---
 dsptoolbox/generators/generators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index e814d73..c492710 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -119,9 +119,6 @@ def noise(
         mag[id_low:, :] *= (f[id_low:] ** (-type_of_noise * 0.5))[..., None]
 
     vec = np.fft.irfft(mag * np.exp(1j * ph), n=l_samples, axis=0)
-    vec = _normalize(
-        vec, dbfs=peak_level_dbfs, peak_normalization=True, per_channel=True
-    )
     if fade is not None:
         fade_length = 0.05 * length_seconds
         vec = _fade(
@@ -138,6 +135,9 @@ def noise(
             sampling_rate_hz=sampling_rate_hz,
             at_start=False,
         )
+    vec = _normalize(
+        vec, dbfs=peak_level_dbfs, peak_normalization=True, per_channel=True
+    )
     time_data[:l_samples, :] = vec
 
     noise_sig = Signal(None, time_data, sampling_rate_hz)
-- 
2.43.0


From 3631ac01515286e3f45cac118a739855d5af86e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 148/231] fix: padding of chirps and oscillators could be one
 sample short

---
 dsptoolbox/generators/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index c492710..b037995 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -215,7 +215,7 @@ def chirp(
         range_hz = [15, sampling_rate_hz // 2]
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
@@ -369,7 +369,7 @@ def oscillator(
 
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
-- 
2.43.0


From 889bcb92e5f919368ccc39931d04664dbf27acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 149/231] fix: synchronized chirps longer than requested were
 cut before their end

---
 dsptoolbox/generators/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index b037995..dfaebf9 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -259,7 +259,8 @@ def chirp(
             at_start=False,
         )
 
-    chirp_td = _pad_trim(chirp_td, l_samples + p_samples)
+    # Synchronized chirps can be longer than requested
+    chirp_td = _pad_trim(chirp_td, max(l_samples, len(chirp_td)) + p_samples)
 
     chirp_n = chirp_td[..., None]
     if number_of_channels != 1:
-- 
2.43.0


From 92d264f9015a052250b270a961958df876d0e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 150/231] fix: uncorrelated oscillators lost their wave form

---
 dsptoolbox/generators/generators.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index dfaebf9..d053e27 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -397,8 +397,8 @@ def oscillator(
         case WaveForm.Square:
             while (2 * k - 1) * frequency_hz < harmonic_cutoff_hz:
                 td += np.sin(
-                    np.pi * 2 * (2 * k - 1) * frequency_hz / sampling_rate_hz * n
-                    + phase_shift
+                    (2 * k - 1)
+                    * (np.pi * 2 * frequency_hz / sampling_rate_hz * n + phase_shift)
                 ) / (2 * k - 1)
                 k += 1
             td *= 4 / np.pi
@@ -406,8 +406,11 @@ def oscillator(
             while k * frequency_hz < harmonic_cutoff_hz:
                 td += (
                     np.sin(
-                        np.pi * 2 * k * frequency_hz / sampling_rate_hz * n
-                        + phase_shift
+                        k
+                        * (
+                            np.pi * 2 * frequency_hz / sampling_rate_hz * n
+                            + phase_shift
+                        )
                     )
                     / k
                     * (-1) ** k
@@ -418,8 +421,11 @@ def oscillator(
             while (2 * k - 1) * frequency_hz < harmonic_cutoff_hz:
                 td += (
                     np.sin(
-                        np.pi * 2 * (2 * k - 1) * frequency_hz / sampling_rate_hz * n
-                        + phase_shift
+                        (2 * k - 1)
+                        * (
+                            np.pi * 2 * frequency_hz / sampling_rate_hz * n
+                            + phase_shift
+                        )
                     )
                     / (2 * k - 1) ** 2
                     * (-1) ** k
-- 
2.43.0


From e2f0f9cbafa9e38dcf787152bc0567c1f2f9bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 151/231] fix: oscillators without any harmonic below their
 cutoff were NaN

---
 dsptoolbox/generators/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index d053e27..777522f 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -383,6 +383,10 @@ def oscillator(
         harmonic_cutoff_hz > 0 and harmonic_cutoff_hz <= sampling_rate_hz // 2
     ), "Cutoff frequency must be between 0 and the nyquist frequency!"
 
+    assert (
+        mode == WaveForm.Harmonic or harmonic_cutoff_hz > frequency_hz
+    ), "Cutoff frequency must be above the frequency of the oscillator"
+
     if uncorrelated:
         phase_shift = np.random.uniform(-np.pi, np.pi, (number_of_channels))[None, ...]
     else:
-- 
2.43.0


From 9ff2ca23548c6aa440b2b12d2b48a3a6ca5212a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 152/231] fix: logarithmic fades of a single sample gave NaN
 and failed without any

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index 1ccf5f1..b102ba6 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -141,7 +141,7 @@ def _fade(
         case FadeType.Logarithmic:
             # The constant 50 could be an extra parameter for the user...
             fade = np.log10(np.linspace(1, 50 * 10**0.5, l_samples))
-            fade /= fade[-1]
+            fade /= np.log10(50 * 10**0.5)
         case _:
             raise ValueError("No valid fade")
 
-- 
2.43.0


From bbc4963d96b3b76f7de4b92101be5970f2bfca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 153/231] fix: short logarithmic chirps were NaN

---
 dsptoolbox/generators/generators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 777522f..622bb60 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -229,9 +229,10 @@ def chirp(
             freqs = (range_hz[0] + k / 2 * t) * 2 * np.pi
             chirp_td = np.sin(freqs * t + phase_offset)
         case ChirpType.Logarithmic:
-            k = np.exp((np.log(range_hz[1]) - np.log(range_hz[0])) / length_seconds)
+            log_k = (np.log(range_hz[1]) - np.log(range_hz[0])) / length_seconds
             chirp_td = np.sin(
-                2 * np.pi * range_hz[0] / np.log(k) * (k**t - 1) + phase_offset
+                2 * np.pi * range_hz[0] / log_k * (np.exp(log_k * t) - 1)
+                + phase_offset
             )
         case ChirpType.SyncLog:
             chirp_td, T = _sync_log_chirp(range_hz, length_seconds, sampling_rate_hz)
-- 
2.43.0


From 63cef6f1a2783215daeab5705d5c9d7c1e8b109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 154/231] fix: spectral distances changed the parameters of the
 passed signals

---
 dsptoolbox/distances/distances.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 7386460..93492b3 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -80,8 +80,8 @@ def log_spectral(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
-    insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
-    insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
+    insig1 = insig1.copy().set_spectrum_parameters(method=method, **spectrum_parameters)
+    insig2 = insig2.copy().set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
     f, spec2 = insig2.get_spectrum()
 
@@ -166,8 +166,8 @@ def itakura_saito(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
-    insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
-    insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
+    insig1 = insig1.copy().set_spectrum_parameters(method=method, **spectrum_parameters)
+    insig2 = insig2.copy().set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
     f, spec2 = insig2.get_spectrum()
 
-- 
2.43.0


From 0e99e9845965923a23852d5093ab0ff7c9e32d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 155/231] fix: itakura-saito distance could be negative due to
 the decimal logarithm

---
 dsptoolbox/distances/_distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/distances/_distances.py b/dsptoolbox/distances/_distances.py
index c99fd10..780525e 100644
--- a/dsptoolbox/distances/_distances.py
+++ b/dsptoolbox/distances/_distances.py
@@ -57,7 +57,7 @@ def _itakura_saito_measure(
 
     """
     assert x.shape == y.shape, "Power spectra have different lengths"
-    ism = simpson(x / y - np.log10(x / y) - 1, x=f)
+    ism = simpson(x / y - np.log(x / y) - 1, x=f)
     return ism
 
 
-- 
2.43.0


From 2263f6d1aa1ce58f2564c199f867be95d415219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 156/231] fix: fw_snr_seg sorted the ranges of the user in
 place

---
 dsptoolbox/distances/distances.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 93492b3..e435655 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -340,8 +340,7 @@ def fw_snr_seg(
         multichannel = True
     # Frequency range
     assert len(f_range_hz) == 2, "Frequency range must have lower and upper bounds"
-    f_range = np.asarray(f_range_hz)
-    f_range.sort()
+    f_range = np.sort(f_range_hz)
     assert f_range[1] < fs_hz // 2, (
         f"Upper frequency range {f_range[1]} must be smaller than nyquist "
         + f"frequency {fs_hz // 2}"
@@ -349,8 +348,7 @@ def fw_snr_seg(
     assert f_range[0] > 0, "Frequency range must be positive"
     # SNR range
     assert len(snr_range_db) == 2, "SNR range must have lower and upper bounds"
-    snr_range_db = np.asarray(snr_range_db)
-    snr_range_db.sort()
+    snr_range_db = np.sort(snr_range_db)
     # Time window
     length_samp = int(75e-3 * fs_hz)
     if length_samp % 2 == 1:
-- 
2.43.0


From aa17167903142162cfa326ef37e4066a674692fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 157/231] fix: fw_snr_seg was NaN for signals with silent
 frames

---
 dsptoolbox/distances/_distances.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/distances/_distances.py b/dsptoolbox/distances/_distances.py
index 780525e..6074ed8 100644
--- a/dsptoolbox/distances/_distances.py
+++ b/dsptoolbox/distances/_distances.py
@@ -155,11 +155,19 @@ def _fw_snr_seg_per_channel(
 
     fw_snr_seg = 0
     position = 0
+    n_silent = 0
     # Loop for time frames
     for _ in range(n_frames):
         # Time signals
         x_m = x[position : position + length_window, :]
         xhat_m = xhat[position : position + length_window, :]
+        position += step_samples
+
+        # Nothing to be rated in silent frames
+        if not np.any(x_m):
+            n_silent += 1
+            continue
+
         # "Collectors"
         weights_jm = np.zeros(length_window // 2 + 1)
         snr_jm = np.zeros_like(weights_jm)
@@ -172,8 +180,8 @@ def _fw_snr_seg_per_channel(
 
             # Normalization of spectra: probably for avoiding scaling
             # inconsistencies when total energy in the signals is not the same
-            X_jm /= np.sum(X_jm)
-            Xhat_jm /= np.sum(Xhat_jm)
+            X_jm /= np.sum(X_jm) + eps
+            Xhat_jm /= np.sum(Xhat_jm) + eps
 
             snr_jm += np.log10(X_jm**2 / (X_jm - Xhat_jm + eps) ** 2) * W_jm
             weights_jm += W_jm
@@ -188,8 +196,7 @@ def _fw_snr_seg_per_channel(
             snr_frame = snr_range_db[1]
         fw_snr_seg += snr_frame
 
-        # Updating position
-        position += step_samples
-
-    fw_snr_seg /= n_frames
+    if n_silent == n_frames:
+        return np.nan
+    fw_snr_seg /= n_frames - n_silent
     return fw_snr_seg
-- 
2.43.0


From b0d1d6cc9fa99186b3e293b1b3e99eafc7fb099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 158/231] fix: welch spectrum of single-channel signals was
 missing its channel axis

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 562ccd6..5b601b6 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -901,6 +901,8 @@ class Signal(MultichannelData):
                     self._spectrum_parameters["average"],
                     self._spectrum_parameters["scaling"],
                 )
+                # Always (frequency, channel), also for a single channel
+                spectrum = spectrum.reshape(spectrum.shape[0], -1)
                 fft_length = self._spectrum_parameters["window_length_samples"]
             else:  # FFT
                 fft_length = (
-- 
2.43.0


From e4a5c5628c10cc671247ec0d3763540c77a1158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 159/231] fix: welch's method failed for signals with a single
 sample

---
 dsptoolbox/standard/_spectral_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 52da0b0..2418e61 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -66,11 +66,11 @@ def _welch(
     autospectrum = y is None
 
     if type(x) is not NDArray[np.float64]:
-        x = np.asarray(x).squeeze()
+        x = np.atleast_1d(np.asarray(x).squeeze())
 
     if not autospectrum:
         if type(y) is not NDArray[np.float64]:
-            y = np.asarray(y).squeeze()
+            y = np.atleast_1d(np.asarray(y).squeeze())
         assert x.shape == y.shape, "Shapes of data do not match"
         # NOTE: Computing the spectrum in a vectorized manner for all channels
         # simultaneously does not seem to be faster than doing it sequentally
-- 
2.43.0


From e57eb63ac3bf2953393b509eb6656b33be8f188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:33 +0000
Subject: [PATCH 160/231] fix: minimum phase of a channel depended on the level
 of the loudest one

---
 dsptoolbox/standard/_standard_backend.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index d45dc7c..02163a9 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -92,9 +92,11 @@ def _minimum_phase(
     if np.iscomplexobj(magnitude):
         magnitude = np.abs(magnitude)
 
-    # Limit dynamic range to 500 dB
-    max_value = np.max(magnitude)
-    lowest_clipping_value = from_db(-500.0, True) * max_value
+    # Limit dynamic range to 500 dB (for each channel)
+    max_value = np.max(magnitude, axis=0)
+    lowest_clipping_value = np.maximum(
+        from_db(-500.0, True) * max_value, np.finfo(np.float64).tiny
+    )
 
     # Get log magnitude
     log_magnitude = np.log(np.clip(magnitude, lowest_clipping_value, None))
-- 
2.43.0


From b616ac275ea9d0ad4489ad35280ba44de3d53a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 161/231] fix: sub-sample latency of a channel depended on the
 peaks of the other channels

---
 dsptoolbox/helpers/latency.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/helpers/latency.py b/dsptoolbox/helpers/latency.py
index f32a97f..6ee0af3 100644
--- a/dsptoolbox/helpers/latency.py
+++ b/dsptoolbox/helpers/latency.py
@@ -31,24 +31,24 @@ def _get_fractional_impulse_peak_index(
     n_channels = time_data.shape[1]
     delay_samples = np.argmax(np.abs(time_data), axis=0).astype(int)
 
-    # Take only the part of the time vector with the peaks and some safety
-    # samples (±200)
-    time_data = time_data[: np.max(delay_samples) + 200, :]
-    start_offset = max(np.min(delay_samples) - 200, 0)
-    time_data = time_data[start_offset:, :]
+    # Take only the part of the time vector with the peak and some safety
+    # samples (±200) for each channel
+    start_offset = np.maximum(delay_samples - 200, 0)
+    peaks = delay_samples.copy()
     delay_samples -= start_offset
 
-    h = hilbert(time_data, axis=0).imag
     x = np.arange(-polynomial_points + 1, polynomial_points + 1)
 
     latency_samples = np.zeros(n_channels)
 
     for ch in range(n_channels):
+        h = hilbert(time_data[start_offset[ch] : peaks[ch] + 200, ch]).imag
+
         # ===== Ensure that delay_samples is before the peak in each channel
-        selection = h[delay_samples[ch] : delay_samples[ch] + 2, ch]
+        selection = h[delay_samples[ch] : delay_samples[ch] + 2]
         move_back_one_sample = selection[0] * selection[1] > 0
         delay_samples[ch] -= int(move_back_one_sample)
-        if h[delay_samples[ch], ch] * h[delay_samples[ch] + 1, ch] > 0:
+        if h[delay_samples[ch]] * h[delay_samples[ch] + 1] > 0:
             latency_samples[ch] = delay_samples[ch] + int(move_back_one_sample)
             warn(
                 f"Fractional latency detection failed for channel {ch}. "
@@ -66,8 +66,7 @@ def _get_fractional_impulse_peak_index(
                 - polynomial_points
                 + 1 : delay_samples[ch]
                 + polynomial_points
-                + 1,
-                ch,
+                + 1
             ],
             deg=2 * polynomial_points - 1,
         )
-- 
2.43.0


From d84acab779823d89d80eae2a301c22cb32e59e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 162/231] fix: adding a channel to a complex signal dropped its
 imaginary part

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 5b601b6..c879f23 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -852,7 +852,7 @@ class Signal(MultichannelData):
                     + f"{self.time_data.shape[0]}. Activate allow_padding_trimming "
                     + "for allowing this channel to be added"
                 )
-        self.time_data = np.concatenate([self.time_data, new_time_data], axis=1)
+        self.time_data = np.concatenate([self._get_data(), new_time_data], axis=1)
         self.__update_state()
         return self
 
-- 
2.43.0


From 312020fe4f99e73aa5226223dac06f8d99c07a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 163/231] fix: get_all_bands did not keep the amplitude
 constraint of the bands

---
 dsptoolbox/classes/multibandsignal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 55f5208..bf5b720 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -501,7 +501,10 @@ class MultiBandSignal:
                         + self.bands[n].time_data_imaginary[:, channel] * 1j
                     )
             return self.__get_type_of_signal_bands()(
-                None, new_time_data, self.sampling_rate_hz
+                None,
+                new_time_data,
+                self.sampling_rate_hz,
+                constrain_amplitude=all(b.constrain_amplitude for b in self.bands),
             )
 
         new_time_data = []
-- 
2.43.0


From a96976b3052f79b0ed3fbf9bcb2764969531122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 164/231] fix: keep the levels of the bands when combining an
 impulse response with a dirac

The bands of a constrained response were rescaled independently before being
added.
---
 dsptoolbox/transfer_functions/transfer_functions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 47240e9..6c91dfb 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1180,8 +1180,16 @@ def combine_ir_with_dirac(
     else:
         band_ir = 1
         band_imp = 0
-    td_ir = ir_multi.bands[band_ir].time_data
-    td_imp = imp_multi.bands[band_imp].time_data
+    # Undo the scaling by the amplitude constraint, so that the levels of both
+    # bands remain comparable
+    td_ir = (
+        ir_multi.bands[band_ir].time_data
+        / ir_multi.bands[band_ir].amplitude_scale_factor
+    )
+    td_imp = (
+        imp_multi.bands[band_imp].time_data
+        / imp_multi.bands[band_imp].amplitude_scale_factor
+    )
 
     if normalization == "energy":
         ir_rms = np.sqrt(np.mean(td_ir**2, axis=0))
-- 
2.43.0


From dfe106823d9c6497c8b34654a9713015f5a2e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 165/231] fix: avoid NaN in audio effects for silent channels

---
 dsptoolbox/effects/_effects.py |  3 +++
 dsptoolbox/effects/effects.py  | 13 +++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 4aa6219..a5444e6 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -18,6 +18,7 @@ def _arctan_distortion(
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
     peak_level = np.max(np.abs(inp), axis=0)
+    peak_level = np.where(peak_level == 0.0, 1.0, peak_level)
     normalized = inp / peak_level
     return np.arctan(normalized * distortion_level_linear + offset_linear) * (2 / np.pi)
 
@@ -29,6 +30,7 @@ def _hard_clip_distortion(
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
     peak_level = np.max(np.abs(inp), axis=0)
+    peak_level = np.where(peak_level == 0.0, 1.0, peak_level)
     normalized = inp / peak_level
     return np.clip(
         normalized * distortion_level_linear + offset_linear, a_min=-1, a_max=1
@@ -42,6 +44,7 @@ def _soft_clip_distortion(
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
     peak_level = np.max(np.abs(inp), axis=0)
+    peak_level = np.where(peak_level == 0.0, 1.0, peak_level)
     normalized = inp / peak_level * (2 / 3)
     normalized += offset_linear
     normalized *= distortion_level_linear
diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d8bd109..745b253 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -116,7 +116,9 @@ class AudioEffect:
                 + "channels. Restoring is ignored"
             )
             return inp
-        return inp * (self._peak_values / np.max(np.abs(inp), axis=0))
+        peak_values = np.max(np.abs(inp), axis=0)
+        peak_values[peak_values == 0.0] = 1.0
+        return inp * (self._peak_values / peak_values)
 
     def _save_rms_values(self, inp: NDArray[np.float64]):
         """Save the RMS values of a signal."""
@@ -132,7 +134,9 @@ class AudioEffect:
                 + "channels. Restoring is ignored"
             )
             return inp
-        return inp * (self._rms_values / _rms(inp))
+        rms_values = np.atleast_1d(_rms(inp))
+        rms_values[rms_values == 0.0] = 1.0
+        return inp * (self._rms_values / rms_values)
 
 
 class SpectralSubtractor(AudioEffect):
@@ -984,7 +988,8 @@ class Compressor(AudioEffect):
 
         # If normalize or absolute
         if self.relative_to_peak_level:
-            td /= self._peak_values
+            peak_values = np.where(self._peak_values == 0.0, 1.0, self._peak_values)
+            td = td / peak_values
 
         attack_time_samples = int(self.attack_time_ms * 1e-3 * fs_hz)
         release_time_samples = int(self.release_time_ms * 1e-3 * fs_hz)
@@ -1002,7 +1007,7 @@ class Compressor(AudioEffect):
 
         # Restore original signal level
         if self.relative_to_peak_level:
-            td *= self._peak_values
+            td *= peak_values
 
         # Restore RMS
         if self.automatic_make_up_gain:
-- 
2.43.0


From 8645ba92359d108804addeac08eabd45e515c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 166/231] fix: apply the post-compression gain in the
 compressor

---
 dsptoolbox/effects/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 745b253..002baae 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1014,7 +1014,7 @@ class Compressor(AudioEffect):
             td = self._restore_rms_values(td)
 
         # Post-compression gain
-        td = self._add_gain_in_db(td, self.pre_gain_db)
+        td = self._add_gain_in_db(td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(td)
 
-- 
2.43.0


From 076e4a91fa10f4d6fa50ee276f4684d79688a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 167/231] fix: mix the clean and the compressed signal in the
 compressor

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index a5444e6..ad7dcb5 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -144,7 +144,7 @@ def _compressor(
             momentary_gain = coeff * gain_factor + (1 - coeff) * momentary_gain
 
             # Apply gain
-            x_[i, n] *= momentary_gain
+            x_[i, n] *= momentary_gain * mix_compressed + (1 - mix_compressed)
 
     if single_channel:
         x_ = x_.squeeze()
-- 
2.43.0


From ca85dcf263b5a9e4d39ade8ef5c6f3cb8719b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 168/231] fix: use the attack time of the compressor when it
 starts acting

Attack and release times were swapped for downward compression.
---
 dsptoolbox/effects/_effects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index ad7dcb5..5efc790 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -136,8 +136,10 @@ def _compressor(
             samp_db_comp = compression_func(samp_db)
             gain_factor = 10 ** ((samp_db_comp - samp_db) / 20)
 
-            # Gain depending on attack and release
-            if gain_factor > momentary_gain:
+            # Gain depending on attack and release. The effect gets stronger
+            # with a decreasing gain in downward compression and with an
+            # increasing one in upward compression
+            if (gain_factor < momentary_gain) == downward_compression:
                 coeff = attack_coeff
             else:
                 coeff = release_coeff
-- 
2.43.0


From 240fa26926770b80472e8403d6d8be74f150196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 169/231] fix: regard the mix of the distortions and keep the
 peak level of the result

Restoring the peaks of each distortion after multiplying it with its share
removed the share.
---
 dsptoolbox/effects/effects.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 002baae..bbcff5e 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -742,13 +742,16 @@ class Distortion(AudioEffect):
         for i in range(len(self.__distortion_funcs)):
             if self.mix[i] == 0.0:
                 continue
-            new_td += self._restore_peak_values(
-                self.__distortion_funcs[i](
-                    td, self.distortion_levels[i], self.offset_db[i]
+            new_td += (
+                self._restore_peak_values(
+                    self.__distortion_funcs[i](
+                        td, self.distortion_levels[i], self.offset_db[i]
+                    )
                 )
                 * self.mix[i]
             )
 
+        new_td = self._restore_peak_values(new_td)
         new_td = self._add_gain_in_db(new_td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(new_td)
-- 
2.43.0


From ac3f4934f5b2d8320ec578c1e397fb275333f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 170/231] fix: accept arrays as modulators in the tremolo
 effect

---
 dsptoolbox/effects/effects.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index bbcff5e..b1bac16 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1057,11 +1057,10 @@ class Tremolo(AudioEffect):
     def __set_parameters(self, depth: float, modulator: LFO | NDArray[np.float64]):
         """Internal method to change parameters."""
         if modulator is not None:
-            assert type(modulator) in (
-                LFO,
-                NDArray[np.float64],
+            assert isinstance(
+                modulator, (LFO, np.ndarray)
             ), "Unsupported modulator type. Use LFO or numpy.ndarray"
-            if type(modulator) is NDArray[np.float64]:
+            if isinstance(modulator, np.ndarray):
                 modulator = modulator.squeeze()
                 assert modulator.ndim == 1, "Modulator signal can have only one channel"
             self.modulator = modulator
-- 
2.43.0


From d6471e4a0bcba0c6c74d264853f168648ba823eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 171/231] fix: accept arrays as modulators in the chorus effect

---
 dsptoolbox/effects/effects.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index b1bac16..481a557 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1187,11 +1187,14 @@ class Chorus(AudioEffect):
         if modulators is not None:
             if type(modulators) in (list, tuple):
                 nv_mod = len(modulators)
-            elif type(modulators) is NDArray[np.float64]:
-                modulators = np.atleast_2d(modulators)
+            elif isinstance(modulators, np.ndarray):
+                if modulators.ndim < 2:
+                    modulators = np.atleast_1d(modulators)[..., None]
                 nv_mod = modulators.shape[1]
             else:
                 nv_mod = 1
+        elif isinstance(self.modulators, np.ndarray):
+            nv_mod = self.modulators.shape[1]
         else:
             nv_mod = len(self.modulators)
 
@@ -1212,15 +1215,11 @@ class Chorus(AudioEffect):
                 )
 
         if modulators is not None:
-            assert type(modulators) in (
-                LFO,
-                list,
-                tuple,
-                NDArray[np.float64],
+            assert isinstance(
+                modulators, (LFO, list, tuple, np.ndarray)
             ), "Unsupported modulators type. Use LFO or numpy.ndarray"
-            if type(modulators) is NDArray[np.float64]:
-                modulators = np.atleast_2d(modulators)
-                modulators.shape[1] == self.number_of_voices, (
+            if isinstance(modulators, np.ndarray):
+                assert modulators.shape[1] == self.number_of_voices, (
                     "The modulators signal must "
                     + "have the same number of channels as there are "
                     + f"voices {self.number_of_voices}"
@@ -1297,7 +1296,7 @@ class Chorus(AudioEffect):
         le = len(signal)
 
         # Get valid modulation signals
-        if type(self.modulators) is not NDArray[np.float64]:
+        if not isinstance(self.modulators, np.ndarray):
             modulation = np.zeros((le, self.number_of_voices))
             for ind, m in enumerate(self.modulators):
                 modulation[:, ind] = (
-- 
2.43.0


From bb20ac2c3a7aff034366d5543b46b318f4a08832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 172/231] fix: delay the voices of the chorus effect instead of
 advancing them

---
 dsptoolbox/effects/effects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 481a557..c26e023 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1319,7 +1319,9 @@ class Chorus(AudioEffect):
         for ind in np.arange(td.shape[0] - max_delay_samples):
             new_td[ind, :] = td[ind, :]
             for v in range(self.number_of_voices):
-                new_td[ind, :] += td[ind + modulation[ind, v], :]
+                delayed_ind = ind - modulation[ind, v]
+                if delayed_ind >= 0:
+                    new_td[ind, :] += td[delayed_ind, :]
 
         # Mix with clean signal
         new_td = new_td * self.mix + td * (1 - self.mix)
-- 
2.43.0


From 5c4a99bbbd39a52b1c94d2d0d7a007a71636620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 173/231] fix: leave parameters of the digital delay unchanged
 when None is passed

---
 dsptoolbox/effects/effects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index c26e023..f72bb74 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1359,11 +1359,13 @@ class DigitalDelay(AudioEffect):
 
     def __set_parameters(self, delay_time_ms: float, feedback: int):
         """Internal method to change parameters."""
-        assert delay_time_ms > 0, "Delay time must be larger than 0"
-        self.delay_ms = delay_time_ms
+        if delay_time_ms is not None:
+            assert delay_time_ms > 0, "Delay time must be larger than 0"
+            self.delay_ms = delay_time_ms
 
-        assert feedback > 0, "Feedback must be larger than one"
-        self.feedback = feedback
+        if feedback is not None:
+            assert feedback > 0, "Feedback must be larger than 0"
+            self.feedback = feedback
 
     def set_parameters(
         self, delay_time_ms: float | None = None, feedback: float | None = None
-- 
2.43.0


From 75eb5bafed44dba63bac95ddcd60d991d068b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 174/231] fix: accept a callable as saturation of the digital
 delay

---
 dsptoolbox/effects/effects.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index f72bb74..ef7e2a9 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1402,7 +1402,8 @@ class DigitalDelay(AudioEffect):
         """
         if saturation is None:
             saturation = "digital"
-        saturation = saturation.lower()
+        if isinstance(saturation, str):
+            saturation = saturation.lower()
         if saturation == "digital":
 
             def func(x):
@@ -1414,12 +1415,10 @@ class DigitalDelay(AudioEffect):
                 return 0.5 * np.arctan(2 * x)
 
         else:
-            assert (
-                type(saturation(1.0)) == float
+            assert callable(saturation) and isinstance(
+                saturation(1.0), float
             ), "Saturation function might not be valid"
-
-            def func(x):
-                return saturation(x)
+            func = np.vectorize(saturation, otypes=[float])
 
         self.saturation_func = func
 
-- 
2.43.0


From c016754f8565fc8cab52ff889fb972451323aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 175/231] fix: subtract the power spectrum of the noise in
 static spectral subtraction

The averaged spectrum has the unit of an amplitude but was regarded as power.
---
 dsptoolbox/effects/effects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index ef7e2a9..3a5f62d 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -466,7 +466,9 @@ class SpectralSubtractor(AudioEffect):
                     window_type=self.window_type,
                     scaling=SpectrumScaling.FFTBackward,
                 )
+                # The averaged spectrum is an amplitude spectrum
                 _, noise_psd = noise["noise"].get_spectrum()
+                noise_psd = np.abs(noise_psd) ** 2
             else:
                 noise_psd = self.spectrum_to_subtract.copy()
             # It is already raised to the power of 2!
-- 
2.43.0


From fa03783341c3defac4e497c23696e49d082a71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 176/231] fix: frequency of a musical rhythm for a tempo other
 than 60 bpm

Faster tempi led to lower frequencies.
---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 5efc790..10a6cb7 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -526,7 +526,7 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor *= 1.5
     if factor == 0:
         raise ValueError("No valid note description was passed")
-    return 60 / bpm / factor
+    return bpm / 60 / factor
 
 
 def get_time_period_from_musical_rhythm(note, bpm):
-- 
2.43.0


From edf2d60dbc0b538a13495bffa79d9fa60a8224e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 177/231] fix: 32th notes are not triplets

---
 dsptoolbox/effects/_effects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 10a6cb7..1ac9500 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -518,6 +518,7 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor = 1 / 4
     if "32th" in note:
         factor = 1 / 8
+        note = note.replace("32th", "")
     if "quintuplet" in note:
         factor = 1 / 5
     if "3" in note:
-- 
2.43.0


From ec33fa9b57e493f271947496b5a696f90858d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 178/231] fix: normalize the waveforms of the LFO to their peak
 value

The smooth square exceeded it. Sawtooth and triangle were scaled according to
the generated segment, which is not a complete period in general and led to
NaN for a single sample.
---
 dsptoolbox/effects/_effects.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 1ac9500..b98e3f4 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -437,7 +437,7 @@ def _square_oscillator(freq, fs, length, random_phase, smooth):
         waveform = np.sign(x)
     else:
         smooth *= 0.25 / 10  # Adapt to some useful range
-        waveform = np.arctan(x / smooth)
+        waveform = np.arctan(x / smooth) * (2 / np.pi)
     return waveform
 
 
@@ -457,7 +457,9 @@ def _sawtooth_oscillator(freq, fs, length, random_phase, smooth):
         smooth = (12 - smooth) ** 1.5
         smooth = max(1, smooth)
         waveform = np.arcsin(np.tanh(np.cos(x) * smooth) * np.sin(x))
-        waveform /= np.abs(np.max(waveform))
+        # Normalize to the peak value of a complete period
+        x = np.linspace(0, np.pi / 2, 10_000)
+        waveform /= np.max(np.arcsin(np.tanh(np.cos(x) * smooth) * np.sin(x)))
     return waveform
 
 
@@ -473,7 +475,8 @@ def _triangle_oscillator(freq, fs, length, random_phase, smooth):
     else:
         smooth *= 0.08 / 10  # Adapt to some useful range
         waveform = 1 - 2 / np.pi * np.arccos((1 - smooth) * x)
-    waveform /= np.max(np.abs(waveform))
+        # Normalize to the peak value of a complete period
+        waveform /= 1 - 2 / np.pi * np.arccos(1 - smooth)
     return waveform
 
 
-- 
2.43.0


From 810702b235ed936825ac63f2abe5a23983d78bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 179/231] fix: use all voices of the chorus when their number
 is increased

---
 dsptoolbox/effects/effects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 3a5f62d..6702331 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1252,6 +1252,14 @@ class Chorus(AudioEffect):
             if len(self.depths_ms) == 1:
                 self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
 
+        # Use previous single values for all voices
+        if len(self.base_delays_ms) == 1:
+            self.base_delays_ms = np.repeat(self.base_delays_ms, self.number_of_voices)
+        if len(self.depths_ms) == 1:
+            self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
+        if not isinstance(self.modulators, np.ndarray) and len(self.modulators) == 1:
+            self.modulators = [self.modulators[0]] * self.number_of_voices
+
         if mix_percent is not None:
             mix_percent /= 100
             assert (
-- 
2.43.0


From ffbc3d1cc6b369a5e9d90eef79174933bbfec373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 180/231] fix: smooth sawtooth of the LFO with a smooth value
 above 12

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index b98e3f4..9e9c1bf 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -454,7 +454,7 @@ def _sawtooth_oscillator(freq, fs, length, random_phase, smooth):
         phase_shift = np.random.uniform(-np.pi, np.pi) if random_phase else 0
         x = np.pi * norm_freq * np.arange(length) + phase_shift
         # Adapt range
-        smooth = (12 - smooth) ** 1.5
+        smooth = max(0, 12 - smooth) ** 1.5
         smooth = max(1, smooth)
         waveform = np.arcsin(np.tanh(np.cos(x) * smooth) * np.sin(x))
         # Normalize to the peak value of a complete period
-- 
2.43.0


From 0e5bae3db3e4938fbaccc366cd2bbe0d7192c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 181/231] fix: regard upper-case input formats in the sample
 conversion

---
 dsptoolbox/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 597731a..568fe00 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -393,7 +393,7 @@ def convert_sample_representation(
     - `i` refers to signed integer and `u` means unsigned integer.
 
     """
-    if input_format == output_format:
+    if input_format.lower() == output_format.lower():
         raise AssertionError("No conversion is necessary")
 
     valid_formats = [
@@ -408,7 +408,7 @@ def convert_sample_representation(
         "u24",
         "u32",
     ]
-    input_format.lower()
+    input_format = input_format.lower()
     output_format = output_format.lower()
     assert (
         output_format in valid_formats and input_format in valid_formats
-- 
2.43.0


From effae2c67a2a2bfb90efa92977496bbc72d24418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 182/231] fix: read bytes of floating-point samples in the
 sample conversion

---
 dsptoolbox/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 568fe00..f9a1b5f 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -425,7 +425,7 @@ def convert_sample_representation(
                     f"""np.{"int" if signed_input else "uint"}{bits_input}"""
                 )
             else:
-                input_format_to_read = eval(f"np.{input_format}")
+                input_format_to_read = np.float32 if input_format == "f32" else np.float64
             values = np.frombuffer(values, dtype=input_format_to_read)
 
     # ==== Input (convert always to double precision)
-- 
2.43.0


From 50b69f5821539cbc7b5c690b5f927b76fc5d390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 183/231] fix: full-scale 32-bit float samples wrapped when
 converted to 32-bit integers

The conversion was done in single precision, where the maximum value of the
format can not be represented.
---
 dsptoolbox/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index f9a1b5f..551fa36 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -436,6 +436,8 @@ def convert_sample_representation(
         values = values.astype(np.float64) / max_value_input
         if not signed_input:
             values -= 1.0
+    else:
+        values = values.astype(np.float64)
     values = np.clip(values, -1.0, 1.0)
 
     # ==== Output (from double precision to desired format)
-- 
2.43.0


From 87249fec811bf1f8a86a19ed958b40db5bb93108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 184/231] fix: convert samples to the nearest value of the
 output format

Due to truncation, going to a finer format and back altered many samples by one.
---
 dsptoolbox/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 551fa36..042089e 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -450,7 +450,9 @@ def convert_sample_representation(
     signed_output = output_format[0] == "i"
     bits_output = int(output_format[1:])
     max_value_output = 2.0 ** (bits_output - 1) - 1
+    # Nearest value of the format. Exact halves are rounded towards 0
     output = values * max_value_output
+    output = np.copysign(np.ceil(np.abs(output) - 0.5), output)
     equilibrium = 0.0
 
     if not signed_output:
@@ -466,8 +468,6 @@ def convert_sample_representation(
         prefix = "int" if signed_output else "uint"
         sample_type = eval(f"np.{prefix}{bits_output}")
         output = output.astype(sample_type)
-    else:
-        output = np.trunc(output)
 
     if not output_in_bytes:
         return output, equilibrium, max_value_output
-- 
2.43.0


From 74f2cfc53857b8086b1ad5810f6e3408a730ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 185/231] fix: scale_spectrum modified its input and altered DC
 and Nyquist of FFT scalings

---
 dsptoolbox/helpers/spectrum_utilities.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 37c9d91..df002e4 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -314,18 +314,19 @@ def _scale_spectrum(
 
     factor = scaling.get_scaling_factor(time_length_samples, sampling_rate_hz, window)
 
+    spectrum = spectrum.copy()
+
     # One-sided fix for DC and Nyquist (assuming input was linear)
-    spectrum[0] /= 2**0.5
-    if time_length_samples % 2 == 0:
-        spectrum[-1] /= 2**0.5
+    if scaling.has_physical_units():
+        spectrum[0] /= 2**0.5
+        if time_length_samples % 2 == 0:
+            spectrum[-1] /= 2**0.5
 
     # Amplitude vs. Power
     if not scaling.is_amplitude_scaling():
         spectrum = np.abs(spectrum) ** 2
 
-    spectrum *= factor
-
-    return spectrum
+    return spectrum * factor
 
 
 def _interpolate_fr(
-- 
2.43.0


From d204b31058b903d348ff8bed0c1837cb16fcdde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 186/231] fix: logarithmic mean of a single value

---
 dsptoolbox/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 042089e..b17d635 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -122,6 +122,8 @@ def log_mean(x: NDArray[np.float64], axis: int = 0):
     """
     # Linear and logarithmic frequency vector
     N = x.shape[axis]
+    if N == 1:
+        return np.mean(x, axis=axis)
     l1 = np.arange(N)
     k_log = (N) ** (l1 / (N - 1))
     # Interpolate to logarithmic scale
-- 
2.43.0


From 3d73ab28f8d786cab91923abec378abab1cfd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 187/231] fix: frequency crossovers for narrow regions

---
 dsptoolbox/tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index b17d635..bd50957 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -159,12 +159,18 @@ def frequency_crossover(
 
     """
     f = (
-        log_frequency_vector(crossover_region_hz, 250)
+        log_frequency_vector(
+            crossover_region_hz,
+            max(
+                250,
+                int(20 / np.log2(crossover_region_hz[1] / crossover_region_hz[0])),
+            ),
+        )
         if logarithmic
         else np.linspace(
             crossover_region_hz[0],
             crossover_region_hz[1],
-            int(crossover_region_hz[1] - crossover_region_hz[0]),
+            max(20, int(crossover_region_hz[1] - crossover_region_hz[0])),
         )
     )
     length = len(f)
-- 
2.43.0


From b22915141953030b658d9ccd42e945a559577902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 188/231] fix: time smoothing of integers truncated the result

---
 dsptoolbox/helpers/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index b7f9e81..07f3a39 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -250,7 +250,7 @@ def _time_smoothing(
         else 1.0
     )
 
-    y = np.zeros_like(x)
+    y = np.zeros(x.shape)
     y[0, :] = x[0, :]
 
     for n in np.arange(1, x.shape[0]):
-- 
2.43.0


From cab360b7c00f72d48ca32fd2ebc59d18d0a3ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 189/231] fix: play and record with a duration in seconds

The number of samples was not an integer.
---
 dsptoolbox/audio_io/audio_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index ef12038..d83321c 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -259,7 +259,7 @@ def play_and_record(
     #
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = duration_seconds * signal.sampling_rate_hz
+        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
-- 
2.43.0


From bf8c69b92bf6fda60086ae4cb80495824c3da5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 190/231] fix: respect the order of the channels for playback

The order of the channels of the signal matches that of play_channels.
---
 dsptoolbox/audio_io/audio_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index d83321c..01f4fb2 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -246,7 +246,7 @@ def play_and_record(
         play_channels = [play_channels]
     if type(rec_channels) is int:
         rec_channels = [rec_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)
     rec_channels = sorted(rec_channels)
     assert signal.number_of_channels == len(play_channels), (
         "The number of channels in signal does not match the number of "
@@ -378,7 +378,7 @@ def play(
         play_channels = list(range(1, signal.number_of_channels + 1))
     if type(play_channels) is int:
         play_channels = [play_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-- 
2.43.0


From fc1211d5136559e509317ce0fd3b86b9d6916571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 191/231] fix: CallbackStop did not stop the stream

---
 dsptoolbox/audio_io/audio_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 01f4fb2..9d3bc8e 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -414,7 +414,7 @@ def CallbackStop():
     streamings.
 
     """
-    sd.CallbackStop()
+    raise sd.CallbackStop()
 
 
 def sleep(seconds: float):
-- 
2.43.0


From 365bb03e42f43b1ae2fe2b25726a500d7e6ab17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 192/231] fix: selecting a device for playback or recording
 changed the default device

---
 dsptoolbox/audio_io/audio_io.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 9d3bc8e..51dc08d 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -275,9 +275,6 @@ def play_and_record(
             per_channel=False,
         )
 
-    if device is not None:
-        sd.default.device = device
-
     print("Playback and recording have started " + f"({duration_seconds:.1f} s)...")
     rec_time_data = sd.playrec(
         data=play_data,
@@ -285,6 +282,7 @@ def play_and_record(
         input_mapping=rec_channels,
         output_mapping=play_channels,
         blocking=True,
+        device=device,
     )
     print("Playback and recording have ended\n")
 
@@ -327,15 +325,13 @@ def record(
         [r < 1 for r in rec_channels]
     ), "Recording channel has to be 1 or more"
     #
-    if device is not None:
-        sd.default.device = device
-
     print(f"\nRecording started ({duration_seconds:.1f} s)...")
     rec_time_data = sd.rec(
         frames=int(duration_seconds * sampling_rate_hz),
         samplerate=sampling_rate_hz,
         mapping=rec_channels,
         blocking=True,
+        device=device,
     )
     print("Recording has ended\n")
 
@@ -396,15 +392,13 @@ def play(
             per_channel=False,
         )
     #
-    if device is not None:
-        sd.default.device = device
-
     print(f"Playback started ({duration_seconds:.1f} s)...")
     sd.play(
         data=play_data,
         samplerate=signal.sampling_rate_hz,
         mapping=play_channels,
         blocking=True,
+        device=device,
     )
     print("Playback has ended\n")
 
-- 
2.43.0


From 73900c847c80a052bfd5808e6b3dcc360834d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 193/231] fix: normalizing silence led to NaN

---
 dsptoolbox/helpers/gain_and_level.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index b102ba6..b2cd7de 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -76,10 +76,11 @@ def _normalize(
 
     factor = from_db(dbfs, True)
     if peak_normalization:
-        factor /= np.max(np.abs(np.real(s)), axis=0 if per_channel else None)
+        level = np.max(np.abs(np.real(s)), axis=0 if per_channel else None)
     else:
-        factor /= _rms(np.real(s if per_channel else s.flatten()))
-    s_norm = s * factor
+        level = _rms(np.real(s if per_channel else s.flatten()))
+    # Silence remains silence
+    s_norm = s * (factor / np.where(level == 0.0, 1.0, level))
 
     return s_norm[..., 0] if onedim else s_norm
 
-- 
2.43.0


From e832e195b0e2fcd0a8e0451b0d7f99fd582452b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 194/231] fix: durations in seconds lost the last sample
 through truncation

---
 dsptoolbox/audio_io/audio_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 51dc08d..1f2805c 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -259,7 +259,7 @@ def play_and_record(
     #
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
+        duration_samples = int(round(duration_seconds * signal.sampling_rate_hz))
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
@@ -327,7 +327,7 @@ def record(
     #
     print(f"\nRecording started ({duration_seconds:.1f} s)...")
     rec_time_data = sd.rec(
-        frames=int(duration_seconds * sampling_rate_hz),
+        frames=int(round(duration_seconds * sampling_rate_hz)),
         samplerate=sampling_rate_hz,
         mapping=rec_channels,
         blocking=True,
@@ -378,7 +378,7 @@ def play(
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
+        duration_samples = int(round(duration_seconds * signal.sampling_rate_hz))
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
-- 
2.43.0


From 2051901b56a80a4217571988c04dc2b5b8b477d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 195/231] fix: plot subplots with a single label or without
 labels

---
 dsptoolbox/plots/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/plots/plots.py b/dsptoolbox/plots/plots.py
index 7207604..9628a86 100644
--- a/dsptoolbox/plots/plots.py
+++ b/dsptoolbox/plots/plots.py
@@ -352,8 +352,10 @@ def general_subplots_line(
             ax[n].set_xlim(range_x)
         if range_y is not None:
             ax[n].set_ylim(range_y)
-    if type(xlabels) is str or len(xlabels) == 1:
+    if type(xlabels) is str:
         ax[-1].set_xlabel(xlabels)
+    elif xlabels is not None and len(xlabels) == 1:
+        ax[-1].set_xlabel(xlabels[0])
     fig.tight_layout()
     return fig, ax
 
-- 
2.43.0


From b3ab87cb608380a8c94d47a82692eb74e4dca9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 196/231] fix: normalize spectrum plot at 1 kHz of the first
 channel

---
 dsptoolbox/classes/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index aa318a4..4181886 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -938,7 +938,7 @@ class Spectrum(MultichannelData):
             case MagnitudeNormalization.OneKhzFirstChannel:
                 norm_value = self.get_interpolated_spectrum(
                     np.array([1000.0]), output_type=SpectrumType.Magnitude
-                )[0]
+                )[0, 0]
                 norm = np.ones(self.number_of_channels) * norm_value
             case MagnitudeNormalization.Max:
                 norm = (
-- 
2.43.0


From 9613f40a12e4b60d07c7045c93c82315189edfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 197/231] fix: label of linear magnitude plots

---
 dsptoolbox/classes/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 4181886..d30cec2 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -967,7 +967,7 @@ class Spectrum(MultichannelData):
             data,
             log_x=True,
             labels=[f"Channel {i}" for i in range(self.number_of_channels)],
-            ylabel="Magnitude / " + "dB" if in_db else "1",
+            ylabel="Magnitude / " + ("dB" if in_db else "1"),
         )
 
     def plot_coherence(self) -> tuple[Figure, list[Axes]]:
-- 
2.43.0


From efbd0609d27eead9ae02ad94a32c3106f505c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 198/231] fix: plot the whole cross-spectral matrix and only
 plot phase if requested

---
 dsptoolbox/classes/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/plots.py b/dsptoolbox/classes/plots.py
index bab4e72..44f28ed 100644
--- a/dsptoolbox/classes/plots.py
+++ b/dsptoolbox/classes/plots.py
@@ -40,7 +40,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
     if range_x is not None:
         id0, id1 = find_nearest_points_index_in_vector(range_x, f)
     else:
-        id0, id1 = 0, -1
+        id0, id1 = 0, len(f)
     f = f[id0:id1]
     csm = csm[id0:id1]
     fig, ax = plt.subplots(
@@ -59,7 +59,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
                 ax[c1, c2].set_xticks(ticks)
                 ax[c1, c2].get_xaxis().set_major_formatter(ScalarFormatter())
             ax[c1, c2].plot(f, to_db(csm[:, c1, c2], False))
-            if c1 != c2:
+            if with_phase and c1 != c2:
                 axRight = ax[c1, c2].twinx()
                 axRight.plot(
                     f,
@@ -71,7 +71,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
                 axRight.grid(False)
             if c1 == ch - 1:
                 ax[c1, c2].set_xlabel("Hz")
-            if c2 == ch - 1:
+            if with_phase and c2 == ch - 1:
                 axRight.set_ylabel("rad")
     fig.tight_layout()
     return fig, ax
-- 
2.43.0


From b66c499a4e2c8884926de3b9a97f70edd1e9c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 199/231] fix: level of the window in the SPL plot of
 calibrated impulse responses

---
 dsptoolbox/classes/impulse_response.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 4ad4371..13ab8a4 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -215,6 +215,8 @@ class ImpulseResponse(Signal):
         fig, ax = super().plot_spl(normalize_at_peak, dynamic_range_db, window_length_s)
 
         peak_values = to_db(np.max(np.abs(self.time_data), axis=0), True)
+        if self.calibrated_signal:
+            peak_values -= 20 * np.log10(2e-5)
 
         max_values = (
             peak_values + 1  # Add 1 dB for better plotting
-- 
2.43.0


From a6f452e6be01ac7d65846b8f89cc3dc756dbc58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 200/231] fix: SPL plot of silence failed

---
 dsptoolbox/classes/signal.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index c879f23..4180711 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1256,13 +1256,9 @@ class Signal(MultichannelData):
                 td_squared_imaginary = oaconvolve(
                     td_squared_imaginary, window, mode="same", axes=0
                 )
-            complex_etc = to_db(
-                td_squared_imaginary,
-                False,
-                500 if dynamic_range_db is None else dynamic_range_db,
-            )
+            complex_etc = to_db(td_squared_imaginary, False, min_value=1e-80)
 
-        etc = to_db(td_squared, False, 500)
+        etc = to_db(td_squared, False, min_value=1e-80)
         peak_values = np.max(etc, axis=0)
 
         if normalize_at_peak:
-- 
2.43.0


From 4339acd934343e12f2c966dadb147fb4d7dced41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 201/231] fix: gain at 1 kHz when it is the last frequency bin

---
 dsptoolbox/helpers/spectrum_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index df002e4..51fb2e4 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -50,7 +50,7 @@ def _get_exact_gain_1khz(f: NDArray[np.float64], sp_db: NDArray[np.float64]) ->
     )
     # Get nearest value just before
     ind = find_nearest_points_index_in_vector(1e3, f).squeeze()
-    if f[ind] > 1e3:
+    if f[ind] > 1e3 or ind == len(f) - 1:
         ind -= 1
     return (sp_db[ind + 1] - sp_db[ind]) / (f[ind + 1] - f[ind]) * (
         1e3 - f[ind]
-- 
2.43.0


From 492bd98ec4cc754bee78ad43bf1a5271c43b6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 202/231] fix: smoothing of power spectra in magnitude plots
 was ignored

---
 dsptoolbox/helpers/spectrum_utilities.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 51fb2e4..b58e029 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -153,16 +153,14 @@ def _get_normalized_spectrum(
     f = f[id1:id2]
 
     if smoothing != 0:
-        if is_amplitude_scaling:
-            mag_spectra = (
-                _fractional_octave_smoothing(mag_spectra, None, smoothing)
-                if is_amplitude_scaling
-                else (
-                    # Smoothing always in amplitude representation
-                    _fractional_octave_smoothing(mag_spectra**0.5, None, smoothing)
-                    ** 2
-                )
+        mag_spectra = (
+            _fractional_octave_smoothing(mag_spectra, None, smoothing)
+            if is_amplitude_scaling
+            else (
+                # Smoothing always in amplitude representation
+                _fractional_octave_smoothing(mag_spectra**0.5, None, smoothing) ** 2
             )
+        )
 
     mag_spectra_db = to_db(mag_spectra / scale_factor, is_amplitude_scaling, 500)
 
-- 
2.43.0


From 4f5c6d114a09dd4dbb49ede4a5b98505d58cea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 203/231] fix: normalization by the energy of the first channel
 for power spectra

---
 dsptoolbox/helpers/spectrum_utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index b58e029..e6fbc8f 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -191,7 +191,11 @@ def _get_normalized_spectrum(
         case MagnitudeNormalization.EnergyFirstChannel:
             normalization_db = to_db(
                 np.mean(
-                    (mag_spectra[:, 0] ** 2.0 if is_amplitude_scaling else mag_spectra),
+                    (
+                        mag_spectra[:, 0] ** 2.0
+                        if is_amplitude_scaling
+                        else mag_spectra[:, 0]
+                    ),
                     axis=0,
                     keepdims=True,
                 ),
-- 
2.43.0


From d6851fb8153ab16ec4844fe760d7cfeb38ad51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 204/231] fix: smoothing and normalization at 1 kHz depended on
 the plotted range

---
 dsptoolbox/helpers/spectrum_utilities.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index e6fbc8f..67bec97 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -148,9 +148,7 @@ def _get_normalized_spectrum(
         id1 = 0
         id2 = len(f)
 
-    spectra = spectra[id1:id2]
     mag_spectra = np.abs(spectra)
-    f = f[id1:id2]
 
     if smoothing != 0:
         mag_spectra = (
@@ -163,18 +161,24 @@ def _get_normalized_spectrum(
         )
 
     mag_spectra_db = to_db(mag_spectra / scale_factor, is_amplitude_scaling, 500)
+    f_all, mag_spectra_db_all = f, mag_spectra_db
+
+    # Range selection after smoothing, since it depends on the frequency bins
+    f = f[id1:id2]
+    mag_spectra = mag_spectra[id1:id2]
+    mag_spectra_db = mag_spectra_db[id1:id2].copy()
 
     match normalize:
         case MagnitudeNormalization.OneKhz:
             normalization_db = np.array(
                 [
-                    _get_exact_gain_1khz(f, mag_spectra_db[:, i])
+                    _get_exact_gain_1khz(f_all, mag_spectra_db_all[:, i])
                     for i in range(spectra.shape[1])
                 ]
             )
         case MagnitudeNormalization.OneKhzFirstChannel:
             normalization_db = np.ones(spectra.shape[1]) * _get_exact_gain_1khz(
-                f, mag_spectra_db[:, 0]
+                f_all, mag_spectra_db_all[:, 0]
             )
         case MagnitudeNormalization.Max:
             normalization_db = np.max(mag_spectra_db, axis=0)
@@ -216,6 +220,7 @@ def _get_normalized_spectrum(
                     np.unwrap(phase_spectra, axis=0), None, smoothing
                 )
             )
+        phase_spectra = phase_spectra[id1:id2]
 
     if one_dimensional:
         mag_spectra_db = np.squeeze(mag_spectra_db)
-- 
2.43.0


From d3eeea249b048fa3f8f0ee13b61917fc350ba49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 205/231] fix: summed magnitude plot of crossovers

---
 dsptoolbox/filterbanks/_filterbank.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 6934eba..0c33a3b 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1058,7 +1058,14 @@ class BaseCrossover(FilterBank):
             bs.spectrum_method = SpectrumMethod.FFT
             f, sp = bs.get_spectrum()
             f, sp = _get_normalized_spectrum(
-                f, np.squeeze(sp), f_range_hz=range_hz, normalize=None
+                f=f,
+                spectra=np.squeeze(sp),
+                is_amplitude_scaling=bs.spectrum_scaling.is_amplitude_scaling(),
+                f_range_hz=range_hz,
+                normalize=MagnitudeNormalization.NoNormalization,
+                smoothing=0,
+                phase=False,
+                calibrated_data=False,
             )
             fig, ax = general_plot(
                 f,
-- 
2.43.0


From 104e2aeba5f5fe8643592e616575b05c2460f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 206/231] fix: magnitude plot of the state variable filter

---
 dsptoolbox/classes/sv_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index 36275f0..699fee8 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -12,7 +12,7 @@ from .signal import Signal
 from .multibandsignal import MultiBandSignal
 from ..generators import dirac
 from .realtime_filter import RealtimeFilter
-from ..standard.enums import SpectrumMethod
+from ..standard.enums import MagnitudeNormalization, SpectrumMethod
 
 
 class StateVariableFilter(RealtimeFilter):
@@ -190,7 +190,7 @@ class StateVariableFilter(RealtimeFilter):
         d.spectrum_method = SpectrumMethod.FFT
         fig, ax = d.plot_magnitude(
             range_hz=range_hz,
-            normalize=None,
+            normalize=MagnitudeNormalization.NoNormalization,
             range_db=range_db,
             smoothing=0,
         )
-- 
2.43.0


From acd9e21132685aeb678ac520673a18b662706e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 207/231] fix: magnitude plot of crossovers with frequency
 range

---
 dsptoolbox/filterbanks/_filterbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 0c33a3b..8427d8d 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1002,12 +1002,12 @@ class BaseCrossover(FilterBank):
         if mode == FilterBankMode.Parallel:
             bs = self.filter_signal(d, mode=mode, downsample=True)
             specs = []
-            f = bs.bands[0].get_spectrum()[0]
             for b in bs.bands:
                 b.spectrum_method = SpectrumMethod.FFT
+                f, sp = b.get_spectrum()
                 f, sp = _get_normalized_spectrum(
                     f=f,
-                    spectra=np.squeeze(b.get_spectrum()[1]),
+                    spectra=np.squeeze(sp),
                     is_amplitude_scaling=b.spectrum_scaling.is_amplitude_scaling(),
                     f_range_hz=range_hz,
                     normalize=MagnitudeNormalization.NoNormalization,
-- 
2.43.0


From 056c2afc3584693567019fb926cbb3cbc7686ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 208/231] fix: power domains of complex smoothing yield no NaN
 when a window has slightly negative ends

---
 dsptoolbox/transfer_functions/transfer_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 6c91dfb..3d0baa3 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1863,13 +1863,13 @@ def complex_smoothing(
             output_sp = _complex_smoothing_backend(
                 octave_fraction, sp, output_sp, f, window_values
             )
-            output_sp = np.real(output_sp) ** 0.5 * np.exp(1j * np.imag(output_sp))
+            output_sp = np.maximum(np.real(output_sp), 0.0) ** 0.5 * np.exp(1j * np.imag(output_sp))
         case SmoothingDomain.Power:
             sp_modified = (np.abs(sp) ** 2.0).astype(np.complex128)
             output_sp = _complex_smoothing_backend(
                 octave_fraction, sp_modified, output_sp, f, window_values
             )
-            output_sp = np.real(output_sp) ** 0.5 * np.exp(1j * np.angle(sp))
+            output_sp = np.maximum(np.real(output_sp), 0.0) ** 0.5 * np.exp(1j * np.angle(sp))
         case SmoothingDomain.Magnitude:
             sp_modified = np.abs(sp).astype(np.complex128)
             output_sp = _complex_smoothing_backend(
@@ -1893,7 +1893,7 @@ def complex_smoothing(
             )
 
             # Combine power with phase of complex smoothing
-            output_sp = np.real(output2) ** 0.5 * np.exp(1j * np.angle(output_sp))
+            output_sp = np.maximum(np.real(output2), 0.0) ** 0.5 * np.exp(1j * np.angle(output_sp))
         case _:
             raise ValueError("Invalid smoothing domain")
     return Spectrum(f, output_sp)
-- 
2.43.0


From 3b25b08b4f4af514060fae8fae7e873a0967f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 209/231] fix: parameters of an audio effect are unchanged when
 one of the new values is refused

---
 dsptoolbox/effects/effects.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 6702331..dc793f8 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -24,8 +24,28 @@ from .enums import DistortionType
 from scipy.signal.windows import get_window
 import numpy as np
 from numpy.typing import NDArray
+from functools import wraps
 from warnings import warn
 
+
+def _all_or_nothing(setter):
+    """Leave all parameters of an effect as they were when the setter raises an
+    error.
+
+    """
+
+    @wraps(setter)
+    def wrapped_setter(self, *args, **kwargs):
+        previous = self.__dict__.copy()
+        try:
+            return setter(self, *args, **kwargs)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(previous)
+            raise
+
+    return wrapped_setter
+
 __all__ = [
     "get_frequency_from_musical_rhythm",
     "get_time_period_from_musical_rhythm",
@@ -250,6 +270,7 @@ class SpectralSubtractor(AudioEffect):
                     self.adaptive_mode = False
             self.spectrum_to_subtract = spectrum_to_subtract
 
+    @_all_or_nothing
     def set_advanced_parameters(
         self,
         overlap_percent: int = 50,
@@ -352,6 +373,7 @@ class SpectralSubtractor(AudioEffect):
         ), "Release time for activity detector must be 0 or above"
         self.ad_release_time_ms = ad_release_time_ms
 
+    @_all_or_nothing
     def set_parameters(
         self,
         adaptive_mode: bool | None = None,
@@ -607,6 +629,7 @@ class Distortion(AudioEffect):
             post_gain_db=post_gain_db,
         )
 
+    @_all_or_nothing
     def set_advanced_parameters(
         self,
         type_of_distortion: (
@@ -836,6 +859,7 @@ class Compressor(AudioEffect):
         if relative_to_peak_level is not None:
             self.relative_to_peak_level = relative_to_peak_level
 
+    @_all_or_nothing
     def set_parameters(
         self,
         threshold_dbfs: float | None = None,
@@ -878,6 +902,7 @@ class Compressor(AudioEffect):
         assert self.ratio is not None, "None is not a valid value"
         assert self.relative_to_peak_level is not None, "None is not a valid value"
 
+    @_all_or_nothing
     def set_advanced_parameters(
         self,
         knee_factor_db: float = 0,
@@ -1072,6 +1097,7 @@ class Tremolo(AudioEffect):
                 assert depth > 0 and depth <= 1, "Depth must be in ]0, 1]"
             self.depth = depth
 
+    @_all_or_nothing
     def set_parameters(
         self,
         depth: float | None = None,
@@ -1267,6 +1293,7 @@ class Chorus(AudioEffect):
             ), "Mix percent must be below 100 and above 0"
             self.mix = mix_percent
 
+    @_all_or_nothing
     def set_parameters(
         self,
         depths_ms: float | NDArray[np.float64] | None = None,
@@ -1377,6 +1404,7 @@ class DigitalDelay(AudioEffect):
             assert feedback > 0, "Feedback must be larger than 0"
             self.feedback = feedback
 
+    @_all_or_nothing
     def set_parameters(
         self, delay_time_ms: float | None = None, feedback: float | None = None
     ):
@@ -1397,6 +1425,7 @@ class DigitalDelay(AudioEffect):
         assert self.delay_ms is not None
         assert self.feedback is not None
 
+    @_all_or_nothing
     def set_advanced_parameters(self, saturation: str | None = None):
         """This function sets the advanced parameters for the delay effect.
 
-- 
2.43.0


From 0d2626d1a2c5b2dcfd7f70e17e098069921ab563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 210/231] fix: Chorus refuses negative depths

---
 dsptoolbox/effects/effects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index dc793f8..54b3178 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1268,8 +1268,8 @@ class Chorus(AudioEffect):
                     self.modulators = [self.modulators[0]] * self.number_of_voices
 
         if depths_ms is not None:
-            if type(self.modulators) is LFO:
-                assert depths_ms >= 0, "Depth must be above 0"
+            if not isinstance(self.modulators, np.ndarray):
+                assert np.all(depths_ms >= 0), "Depth must be above 0"
             self.depths_ms = np.atleast_1d(depths_ms)
             assert len(self.depths_ms) in (1, self.number_of_voices), (
                 "Depth must be of length 1 or number of "
-- 
2.43.0


From 811d366d4a281e6f568f825421162168bbc84a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 211/231] fix: MultiBandSignal refuses a number of sampling
 rates different to its bands

---
 dsptoolbox/classes/multibandsignal.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index bf5b720..2538103 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -95,10 +95,9 @@ class MultiBandSignal:
             self.__sampling_rate_hz = int(new_sampling_rate_hz)
         else:
             new_sampling_rate_hz = atleast_1d(new_sampling_rate_hz)
-            if hasattr(self, "__bands"):
-                assert self.number_of_bands == len(
-                    new_sampling_rate_hz
-                ), "Number of bands does not match number of sampling rates"
+            assert self.number_of_bands == len(
+                new_sampling_rate_hz
+            ), "Number of bands does not match number of sampling rates"
             self.__sampling_rate_hz = [int(s) for s in new_sampling_rate_hz]
 
     @property
@@ -179,7 +178,7 @@ class MultiBandSignal:
                     )
                 self.sampling_rate_hz = expected_sampling_rate_hz
             else:
-                self.sampling_rate_hz = sr
+                self.__sampling_rate_hz = sr
             self.__number_of_channels = number_of_channels
         self.__bands: list[Signal] = new_bands
 
-- 
2.43.0


From 13d4e5cde4ed24e7e91c0e59552094300448c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 212/231] fix: FilterBank refuses a number of sampling rates
 different to its filters

---
 dsptoolbox/classes/filterbank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 8cdcf01..e15cf7b 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -180,6 +180,9 @@ class FilterBank:
             self.__sampling_rate_hz = int(new_sampling_rate_hz)
         else:
             new_sampling_rate_hz = np.atleast_1d(new_sampling_rate_hz)
+            assert self.number_of_filters == len(
+                new_sampling_rate_hz
+            ), "Number of filters does not match number of sampling rates"
             self.__sampling_rate_hz = [int(s) for s in new_sampling_rate_hz]
 
     @property
@@ -237,7 +240,7 @@ class FilterBank:
                 sr = []
                 for f in new_filters:
                     sr.append(f.sampling_rate_hz)
-                self.sampling_rate_hz = sr
+                self.__sampling_rate_hz = sr
         self.__filters = new_filters
 
     @property
@@ -311,7 +314,6 @@ class FilterBank:
 
         """
         if not self.filters:
-            self.sampling_rate_hz = filt.sampling_rate_hz
             self.filters = [filt]
         else:
             fs = self.filters.copy()
-- 
2.43.0


From e5652d4391fa3504b2088727b2f9ac777c9b3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 213/231] fix: filter_multiband_signal refuses a number of
 bands different to the filters

---
 dsptoolbox/classes/filterbank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index e15cf7b..e47b53a 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -510,6 +510,9 @@ class FilterBank:
         assert np.all(
             mbsignal.sampling_rate_hz == self.sampling_rate_hz
         ), "Sampling rates do not match"
+        assert (
+            mbsignal.number_of_bands == self.number_of_filters
+        ), "Number of bands does not match number of filters"
         if zero_phase:
             assert not activate_zi, (
                 "Zero-phase filtering and zi cannot be used at " + "the same time"
-- 
2.43.0


From 71a346515c45cc119bfea2013c6e0c7f6b33dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 214/231] fix: refused spectral data or frequency vector leaves
 the spectrum unchanged

---
 dsptoolbox/classes/spectrum.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index d30cec2..bab1b82 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -175,6 +175,10 @@ class Spectrum(MultichannelData):
         assert f.ndim == 1, "Frequency vector can only have a single dimension"
         assert np.all(f >= 0.0), "Negative frequencies are not supported"
         assert np.all(np.ediff1d(f) > 0.0), "Frequency vector is not strictly ascending"
+        if hasattr(self, "_Spectrum__spectral_data"):
+            assert len(f) == len(
+                self.__spectral_data
+            ), "Spectral data and frequency vector lengths do not match"
         self.__frequency_vector_type = self.__check_frequency_vector_type(f)
         self.__frequency_vector_hz = f
 
@@ -263,13 +267,22 @@ class Spectrum(MultichannelData):
             data.shape[0] == self.number_frequency_bins
         ), "Spectral data and frequency vector lengths do not match"
         is_magnitude = np.isrealobj(data)
+        if is_magnitude:
+            assert np.all(
+                data >= 0.0
+            ), "No negative values are allowed for the magnitude spectrum"
         self.__spectral_data = data.astype(
             np.float64 if is_magnitude else np.complex128
         )
-        if self.is_magnitude:
-            assert np.all(
-                self.__spectral_data >= 0.0
-            ), "No negative values are allowed for the magnitude spectrum"
+
+    def __replace_data(
+        self, new_freqs_hz: NDArray[np.float64], new_data: NDArray
+    ) -> None:
+        """Replace frequency vector and spectral data after validating both."""
+        new_spectrum = Spectrum(new_freqs_hz, new_data)
+        self.__frequency_vector_type = new_spectrum.__frequency_vector_type
+        self.__frequency_vector_hz = new_spectrum.__frequency_vector_hz
+        self.__spectral_data = new_spectrum.__spectral_data
 
     @property
     def is_magnitude(self) -> bool:
@@ -432,8 +445,7 @@ class Spectrum(MultichannelData):
         """
         s = self.__freqs_to_slice(f_lower_hz, f_upper_hz, inclusive)
         new_data = self.spectral_data[s, ...]
-        self.frequency_vector_hz = self.frequency_vector_hz[s]
-        self.spectral_data = new_data
+        self.__replace_data(self.frequency_vector_hz[s], new_data)
         if self.has_coherence:
             self.set_coherence(self.coherence[s, ...])
         return self
@@ -485,8 +497,7 @@ class Spectrum(MultichannelData):
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
         )
         old_freqs_hz = self.frequency_vector_hz
-        self.frequency_vector_hz = new_freqs_hz
-        self.spectral_data = new_sp
+        self.__replace_data(new_freqs_hz, new_sp)
         if self.has_coherence:
             self.set_coherence(
                 np.stack(
-- 
2.43.0


From 929f4af218048bce881c46f3bc1ecdd85bef0b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 215/231] fix: Filter refuses zpk coefficients without zeros,
 poles and gain

---
 dsptoolbox/classes/filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 73b7e33..57c5eab 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -615,7 +615,11 @@ class Filter:
             If new_zpk cannot be converted to a list.
 
         """
-        self.__zpk = deepcopy(list(new_zpk))
+        new_zpk = list(new_zpk)
+        assert (
+            len(new_zpk) == 3
+        ), "zpk coefficients must contain zeros, poles and gain"
+        self.__zpk = deepcopy(new_zpk)
 
     @property
     def order(self):
-- 
2.43.0


From 57a43fb26d910d2f6d5e76dd3d5bbc3b9f41f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 216/231] fix: PhaseLinearizer keeps its delay increase when
 the additional length is refused

---
 dsptoolbox/classes/group_delay_designer_phase_linearizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
index 47aecc6..cec4a1b 100644
--- a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
+++ b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
@@ -324,13 +324,14 @@ class PhaseLinearizer(GroupDelayDesigner):
 
         """
         assert delay_increase_percent >= 0, "Delay increase must be larger than zero"
-        self.group_delay_increase_factor = 1 + delay_increase_percent / 100
-        return super().set_parameters(
+        super().set_parameters(
             0.0,
             additional_length_samples,
             trapezoidal_integration,
             ensure_integer_delay=ensure_integer_delay,
         )
+        self.group_delay_increase_factor = 1 + delay_increase_percent / 100
+        return self
 
     def __get_group_delay(self, phase_response) -> NDArray[np.float64]:
         """Return the unscaled group delay from the phase response."""
-- 
2.43.0


From 88140ef13a5dc9ea7b630975d0ea2b13569b50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 217/231] fix: delay refuses a negative delay instead of
 overwriting the input signal

---
 dsptoolbox/standard/latency_delay.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/standard/latency_delay.py b/dsptoolbox/standard/latency_delay.py
index d06087f..fedeb9e 100644
--- a/dsptoolbox/standard/latency_delay.py
+++ b/dsptoolbox/standard/latency_delay.py
@@ -316,6 +316,7 @@ def delay(
 
     """
     if isinstance(sig, Signal):
+        assert delay_samples >= 0, "Delay must be zero or positive"
         if delay_samples == 0:
             return sig.copy()
         if keep_length:
-- 
2.43.0


From 2edbd431ef732c15f67270be6a091621226916aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 218/231] fix: apply_gain refuses a number of gains different
 to the channels of a mono signal

---
 dsptoolbox/standard/gain_and_level.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 93a4fcf..1128ac8 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -321,6 +321,10 @@ def apply_gain(
     """
     if isinstance(target, Signal):
         gain_linear = from_db(np.atleast_1d(gain_db), True)
+        assert len(gain_linear) in (
+            1,
+            target.number_of_channels,
+        ), "Number of gain values does not match number of channels"
         if len(gain_linear) == 1:
             gain_linear = gain_linear[0]
         return target.copy_with_new_time_data(target._get_data() * gain_linear)
-- 
2.43.0


From 92a4c183234176e14e052ae6c443e8deb6e6c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 219/231] fix: a multirate MultiBandSignal cannot be declared
 to have a single sampling rate

---
 dsptoolbox/classes/multibandsignal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 2538103..6993ccd 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -218,6 +218,12 @@ class MultiBandSignal:
 
         """
         assert type(new_same) is bool, "Same sampling rate attribute must be a boolean"
+        if new_same and getattr(self, "_MultiBandSignal__bands", []):
+            assert all(
+                b.sampling_rate_hz == self.bands[0].sampling_rate_hz
+                and len(b) == len(self.bands[0])
+                for b in self.bands
+            ), "Bands have different sampling rates or lengths"
         self.__same_sampling_rate = new_same
 
     @property
-- 
2.43.0


From cd66a51ddc12247e2374c44768982fb05abe5c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 220/231] fix: changing same_sampling_rate updates the sampling
 rates of a MultiBandSignal

---
 dsptoolbox/classes/multibandsignal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 6993ccd..7d51aec 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -225,6 +225,8 @@ class MultiBandSignal:
                 for b in self.bands
             ), "Bands have different sampling rates or lengths"
         self.__same_sampling_rate = new_same
+        if getattr(self, "_MultiBandSignal__bands", []):
+            self.bands = self.bands  # Update sampling rate(s)
 
     @property
     def number_of_bands(self) -> int:
-- 
2.43.0


From 7f3dfd7835ee8816ea3e78ed940535405934f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 221/231] fix: a multirate FilterBank cannot be declared to
 have a single sampling rate

---
 dsptoolbox/classes/filterbank.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index e47b53a..5b0aede 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -295,7 +295,14 @@ class FilterBank:
 
         """
         assert type(new_same) is bool, "same_sampling_rate must be a boolean"
+        filters = getattr(self, "_FilterBank__filters", [])
+        if new_same:
+            assert all(
+                f.sampling_rate_hz == filters[0].sampling_rate_hz for f in filters
+            ), "Filters have different sampling rates"
         self.__same_sampling_rate = new_same
+        if filters:
+            self.filters = filters  # Update sampling rate(s)
 
     # ======== Add and remove =================================================
     def add_filter(self, filt: Filter, index: int = -1) -> Self:
-- 
2.43.0


From bf61960da29e9a0e6ae00e8a3337a883bb6eafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 222/231] fix: WarpedIIR refuses warping factors outside of
 ]-1; 1[ as WarpedFIR does

---
 dsptoolbox/classes/warped_filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/classes/warped_filters.py b/dsptoolbox/classes/warped_filters.py
index 1d1675b..d80aae6 100644
--- a/dsptoolbox/classes/warped_filters.py
+++ b/dsptoolbox/classes/warped_filters.py
@@ -180,6 +180,7 @@ class WarpedIIR(WarpedFIR):
         """
         assert b.ndim == 1, "Coefficients can only have a single dimension"
         assert a.ndim == 1, "Coefficients can only have a single dimension"
+        assert abs(warping_factor) < 1.0, "Warping factor must be in range ]-1;1["
 
         self.N = max(len(a), len(b))
         self.order = self.N - 1
-- 
2.43.0


From 2ae5176558ee175029a69dd39909d1c0b2a34324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 223/231] fix: a Signal owns its samples and stores them in
 floating point

---
 dsptoolbox/classes/signal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 4180711..b55d4f8 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -266,6 +266,11 @@ class Signal(MultichannelData):
         if new_time_data.shape[1] > new_time_data.shape[0]:
             new_time_data = new_time_data.T
 
+        # Own the data in floating point representation
+        new_time_data = new_time_data.astype(
+            np.complex128 if np.iscomplexobj(new_time_data) else np.float64
+        )
+
         # Handle complex data
         if np.iscomplexobj(new_time_data):
             new_time_data_imag = np.imag(new_time_data)
-- 
2.43.0


From 8f00544943241831d0fe38cf3b67f227cdb05985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 224/231] fix: time windows and imaginary time data are not
 shared with the array of the caller

---
 dsptoolbox/classes/impulse_response.py | 2 +-
 dsptoolbox/classes/signal.py           | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 13ab8a4..5b68442 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -146,7 +146,7 @@ class ImpulseResponse(Signal):
         assert (
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
-        self.window = window
+        self.window = window.copy()
         self._update_state()
         return self
 
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index b55d4f8..046ef0a 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -414,6 +414,7 @@ class Signal(MultichannelData):
             if self.constrain_amplitude and np.max(np.abs(new_imag)) > 1.0:
                 self.time_data = self.time_data + 1j * new_imag
                 return
+            new_imag = new_imag.astype(np.float64)
         self.__time_data_imaginary: NDArray[np.float64] | None = new_imag
 
     @property
-- 
2.43.0


From c54f8cf56bd7d9349d103f3659e06bb6fc7eee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 225/231] fix: multiband signals and filter banks do not share
 the list of the caller

---
 dsptoolbox/classes/filterbank.py      | 8 +++++---
 dsptoolbox/classes/multibandsignal.py | 5 ++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 5b0aede..4d54841 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -222,9 +222,11 @@ class FilterBank:
         """
         if new_filters is None:
             new_filters = []
-        if type(new_filters) is tuple:
-            new_filters = list(new_filters)
-        assert type(new_filters) is list, "Filters have to be passed as a list"
+        assert type(new_filters) in (
+            list,
+            tuple,
+        ), "Filters have to be passed as a list"
+        new_filters = list(new_filters)
         if new_filters:
             for ind, f in enumerate(new_filters):
                 assert (
diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 7d51aec..2642c86 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -140,9 +140,8 @@ class MultiBandSignal:
         """
         if new_bands is None:
             new_bands = []
-        if type(new_bands) is tuple:
-            new_bands = list(new_bands)
-        assert type(new_bands) is list, "bands has to be a list"
+        assert type(new_bands) in (list, tuple), "bands has to be a list"
+        new_bands = list(new_bands)
         if new_bands:
             # Check length and number of channels
             number_of_channels = new_bands[0].number_of_channels
-- 
2.43.0


From e981b502878bfccbe4359ac849b13720ea07bc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 226/231] fix: QMF crossover does not share the given prototype
 between its filters

---
 dsptoolbox/filterbanks/_filterbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 8427d8d..3172ae0 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1152,7 +1152,7 @@ class QMFCrossover(BaseCrossover):
             )
             # Type of filter bank
             self.fir_filterbank = False
-        return [lowpass, highpass]
+        return [lowpass.copy(), highpass]
 
     def _get_synthesis_filters(self, lowpass: Filter):
         """Create and return synthesis filters based on a lowpass prototype.
@@ -1211,7 +1211,7 @@ class QMFCrossover(BaseCrossover):
                 sampling_rate_hz=lowpass.sampling_rate_hz,
             )
 
-        return [lowpass, hp_filter]
+        return [lowpass.copy(), hp_filter]
 
 
 def _crossover_downsample(
-- 
2.43.0


From fda27eee705d7385f05d081ad312874f65dff91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 227/231] fix: reshaped maps of a grid do not share the memory
 of the given map

---
 dsptoolbox/beamforming/beamforming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index a402ec2..6ea9ab4 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -170,7 +170,7 @@ class Regular2DGrid(Grid):
         assert (
             len(map_vector) == self.number_of_points
         ), "Length of passed vector does not match the number of points"
-        return map_vector.reshape(self.original_lengths)
+        return map_vector.reshape(self.original_lengths).copy()
 
     def plot_map(
         self, map: NDArray[np.float64], range_db: float = 20
@@ -291,7 +291,7 @@ class Regular3DGrid(Grid):
         assert (
             len(map_vector) == self.number_of_points
         ), "Length of passed vector does not match the number of points"
-        return map_vector.reshape(self.original_lengths)
+        return map_vector.reshape(self.original_lengths).copy()
 
     def plot_map(
         self,
-- 
2.43.0


From b075edd2a1a7817796ca679932ce5308f4192f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:40 +0000
Subject: [PATCH 228/231] fix: value at the last frequency is not a view of the
 given data

---
 dsptoolbox/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index bd50957..d084c15 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -93,7 +93,7 @@ def get_exact_value_at_frequency(
 
     # Single value in vector or last value matches
     if freqs_hz[-1] == f:
-        return y[-1]
+        return 1.0 * y[-1]
 
     ind = np.searchsorted(freqs_hz, f)
     if freqs_hz[ind] > f:
-- 
2.43.0


From 29c3386e245f24ade9ea2a64c25fc9bc4ba14a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:40 +0000
Subject: [PATCH 229/231] fix: base audio effect does not return the signal
 passed to it

---
 dsptoolbox/effects/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 54b3178..381a7bf 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -98,7 +98,7 @@ class AudioEffect:
         signal.
 
         """
-        return signal
+        return signal.copy()
 
     def _add_gain_in_db(
         self, time_data: NDArray[np.float64], gain_db: float
-- 
2.43.0


From 769fac891de2d106ab0e4677195c68550cbeb341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 230/231] fix: fractional octave bands do not sort the array of
 the caller

---
 dsptoolbox/filterbanks/filterbanks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 7580e27..321ae7c 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -378,8 +378,7 @@ def fractional_octave_bands(
     assert (
         sampling_rate_hz is not None
     ), "A sampling rate must be passed for the filter bank"
-    frequency_range_hz = np.atleast_1d(np.squeeze(frequency_range_hz))
-    frequency_range_hz.sort()
+    frequency_range_hz = np.sort(np.atleast_1d(np.squeeze(frequency_range_hz)))
     assert (
         len(frequency_range_hz) == 2
     ), "Frequency range must contain exactly two entries"
-- 
2.43.0


From 26d35a2f08052f4bfcb7910968ff402e3e7a43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 231/231] fix: bands of a multirate signal are not views of its
 data

---
 dsptoolbox/classes/multibandsignal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 2642c86..41c0b29 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -517,7 +517,7 @@ class MultiBandSignal:
         sr = []
         if self.bands[0].time_data_imaginary is None:
             for n in range(len(self.bands)):
-                new_time_data.append(self.bands[n].time_data[:, channel])
+                new_time_data.append(self.bands[n].time_data[:, channel].copy())
                 sr.append(self.bands[n].sampling_rate_hz)
         else:
             for n in range(len(self.bands)):
-- 
2.43.0

