From 51e6ce2dbdfdf9d7b08d06c37becc1f5b0f1aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 01/67] fix: Signal copies the time data it is given instead of
 normalizing the caller's array in place

---
 dsptoolbox/classes/signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 652e0d3..5b75569 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -253,7 +253,7 @@ class Signal(MultichannelData):
 
         """
         # Shape of Time Data array
-        new_time_data = np.atleast_2d(new_time_data).squeeze()
+        new_time_data = np.atleast_2d(np.array(new_time_data)).squeeze()
         assert new_time_data.ndim <= 2, (
             f"{new_time_data.ndim} are "
             + "too many dimensions for time data. Dimensions should"
@@ -279,14 +279,14 @@ class Signal(MultichannelData):
             if new_time_data_imag is not None:
                 time_data_max = max(time_data_max, np.max(np.abs(new_time_data_imag)))
             if time_data_max > 1.0:
-                new_time_data /= time_data_max
+                new_time_data = new_time_data / time_data_max
                 warn(
                     "Signal was over 0 dBFS, normalizing to 0 dBFS "
                     + "peak level was triggered"
                 )
                 # Imaginary part is also scaled by same factor as real part
                 if new_time_data_imag is not None:
-                    new_time_data_imag /= time_data_max
+                    new_time_data_imag = new_time_data_imag / time_data_max
                 self.__amplitude_scale_factor = 1.0 / time_data_max
             else:
                 self.__amplitude_scale_factor = 1.0
@@ -406,6 +406,7 @@ class Signal(MultichannelData):
             assert (
                 new_imag.shape == self.__time_data.shape
             ), "Shape of imaginary part time data does not match"
+            new_imag = np.array(new_imag)
         self.__time_data_imaginary: NDArray[np.float64] | None = new_imag
 
     @property
-- 
2.43.0


From e220aea6a2d0161721f1df1a5957f1d71d714566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 02/67] fix: cached spectra are recomputed after changes of
 smoothing, window or temporary settings

---
 dsptoolbox/classes/impulse_response.py |  8 ++--
 dsptoolbox/classes/signal.py           | 55 ++++++++++++++++++--------
 2 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index e1c6913..9d532e3 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -148,7 +148,8 @@ class ImpulseResponse(Signal):
         assert (
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
-        self.window = window
+        self.window = window.copy()
+        self._update_state()
         return self
 
     def plot_time(self) -> tuple[Figure, list[Axes]]:
@@ -288,10 +289,7 @@ class ImpulseResponse(Signal):
             List containing the two axes of the plot.
 
         """
-        prior_smoothing = self.spectrum_smoothing
-        self.spectrum_smoothing = smoothing
-        f, sp = self.get_spectrum()
-        self.spectrum_smoothing = prior_smoothing
+        f, sp = self._get_spectrum_with_smoothing(smoothing)
         sp_abs = np.abs(sp)
 
         match normalize:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 5b75569..4bd68b2 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -703,6 +703,8 @@ class Signal(MultichannelData):
         """
         assert new_smoothing >= 0.0, "Smoothing must be positive or zero"
         self._spectrum_parameters["smoothing"] = float(new_smoothing)
+        self.__spectrum_state_update = True
+        self.__csm_state_update = True
 
     def set_spectrogram_parameters(
         self,
@@ -856,6 +858,7 @@ class Signal(MultichannelData):
         """Deletes the time window of the signal in case there is any."""
         if hasattr(self, "window"):
             del self.window
+            self.__update_state()
         return self
 
     # ======== Getters ========================================================
@@ -946,6 +949,35 @@ class Signal(MultichannelData):
 
         return self.spectrum[0].copy(), self.spectrum[1].copy()
 
+    def _get_spectrum_with_smoothing(
+        self, smoothing: float
+    ) -> tuple[NDArray[np.float64], NDArray[np.complex128 | np.float64]]:
+        """Get the spectrum with some smoothing, regardless of the stored
+        smoothing parameter. The stored parameter is not changed.
+
+        Parameters
+        ----------
+        smoothing : float
+            Smoothing across (`1/smoothing`) octave bands.
+
+        Returns
+        -------
+        spectrum_freqs : NDArray[np.float64]
+            Frequency vector.
+        spectrum : NDArray[np.complex128 | np.float64]
+            Spectrum matrix for each channel.
+
+        """
+        prior_smoothing = self._spectrum_parameters["smoothing"]
+        if smoothing == prior_smoothing:
+            return self.get_spectrum()
+        self._spectrum_parameters["smoothing"] = smoothing
+        self.__spectrum_state_update = True
+        f, sp = self.get_spectrum()
+        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.__spectrum_state_update = True
+        return f, sp
+
     def get_csm(
         self, force_computation=False
     ) -> tuple[NDArray[np.float64], NDArray[np.float64]]:
@@ -1045,9 +1077,9 @@ class Signal(MultichannelData):
                 self._spectrogram_parameters["padding"],
                 self._spectrogram_parameters["scaling"],
             )
-            self.__spectrogram_state_update = False
             if self.activate_cache:
                 self.spectrogram = deepcopy(spectrogram)
+                self.__spectrogram_state_update = False
             return spectrogram[0], spectrogram[1], spectrogram[2]
 
         return (
@@ -1102,14 +1134,8 @@ class Signal(MultichannelData):
           when no normalization is active.
 
         """
-        # Handle smoothing
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
-
-        # Get spectrum
-        f, sp = self.get_spectrum()
-
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        # Get spectrum without smoothing
+        f, sp = self._get_spectrum_with_smoothing(0)
 
         f, mag_db = _get_normalized_spectrum(
             f=f,
@@ -1340,6 +1366,8 @@ class Signal(MultichannelData):
         )
         f, sp = self.get_spectrum()
         self._spectrum_parameters = prior_spectrum_parameters
+        self.__spectrum_state_update = True
+        self.__csm_state_update = True
 
         ph = np.angle(sp)
 
@@ -1494,15 +1522,10 @@ class Signal(MultichannelData):
             self.spectrum_method == SpectrumMethod.FFT
         ), "Phase cannot be plotted since the spectrum is welch."
 
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
-
-        # Get spectrum
-        f, sp = self.get_spectrum()
+        # Get spectrum without smoothing
+        f, sp = self._get_spectrum_with_smoothing(0)
         ph = np.angle(sp)
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
-
         if remove_ir_latency is None:
             pass
         elif type(remove_ir_latency) is str:
-- 
2.43.0


From c45df65fe5f651702efb95e7ecbf901c58ce5edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 03/67] fix: keep the imaginary part when adding a channel or
 constraining the amplitude

---
 dsptoolbox/classes/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 4bd68b2..3513a9f 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -453,7 +453,7 @@ class Signal(MultichannelData):
         self.__constrain_amplitude = nca
         # Restart time data setter for triggering normalization if needed
         if nca and hasattr(self, "time_data"):
-            ntd = self.time_data
+            ntd = self._get_data()
             self.time_data = ntd
 
     @property
@@ -850,7 +850,7 @@ class Signal(MultichannelData):
                     + f"{self.time_data.shape[0]}. Activate allow_padding_trimming "
                     + "for allowing this channel to be added"
                 )
-        self.time_data = np.concatenate([self.time_data, new_time_data], axis=1)
+        self.time_data = np.concatenate([self._get_data(), new_time_data], axis=1)
         self.__update_state()
         return self
 
-- 
2.43.0


From 84987aef6fbf1727cc9e55324c1eb503d384be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 04/67] fix: log_spectral and itakura_saito leave the spectrum
 parameters of their inputs unchanged

---
 dsptoolbox/distances/distances.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 7386460..93492b3 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -80,8 +80,8 @@ def log_spectral(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
-    insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
-    insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
+    insig1 = insig1.copy().set_spectrum_parameters(method=method, **spectrum_parameters)
+    insig2 = insig2.copy().set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
     f, spec2 = insig2.get_spectrum()
 
@@ -166,8 +166,8 @@ def itakura_saito(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
-    insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
-    insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
+    insig1 = insig1.copy().set_spectrum_parameters(method=method, **spectrum_parameters)
+    insig2 = insig2.copy().set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
     f, spec2 = insig2.get_spectrum()
 
-- 
2.43.0


From 0d426728d0721efab394c1c7a99870d3098c3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 05/67] fix: do not sort the range arrays of the caller in
 place

---
 dsptoolbox/distances/distances.py     | 6 ++----
 dsptoolbox/filterbanks/filterbanks.py | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 93492b3..e435655 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -340,8 +340,7 @@ def fw_snr_seg(
         multichannel = True
     # Frequency range
     assert len(f_range_hz) == 2, "Frequency range must have lower and upper bounds"
-    f_range = np.asarray(f_range_hz)
-    f_range.sort()
+    f_range = np.sort(f_range_hz)
     assert f_range[1] < fs_hz // 2, (
         f"Upper frequency range {f_range[1]} must be smaller than nyquist "
         + f"frequency {fs_hz // 2}"
@@ -349,8 +348,7 @@ def fw_snr_seg(
     assert f_range[0] > 0, "Frequency range must be positive"
     # SNR range
     assert len(snr_range_db) == 2, "SNR range must have lower and upper bounds"
-    snr_range_db = np.asarray(snr_range_db)
-    snr_range_db.sort()
+    snr_range_db = np.sort(snr_range_db)
     # Time window
     length_samp = int(75e-3 * fs_hz)
     if length_samp % 2 == 1:
diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 7580e27..321ae7c 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -378,8 +378,7 @@ def fractional_octave_bands(
     assert (
         sampling_rate_hz is not None
     ), "A sampling rate must be passed for the filter bank"
-    frequency_range_hz = np.atleast_1d(np.squeeze(frequency_range_hz))
-    frequency_range_hz.sort()
+    frequency_range_hz = np.sort(np.atleast_1d(np.squeeze(frequency_range_hz)))
     assert (
         len(frequency_range_hz) == 2
     ), "Frequency range must contain exactly two entries"
-- 
2.43.0


From 452b6b14fc805f7aa95dac1c688f2de80b59f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 06/67] fix: analysis functions leave the settings of their
 input signals unchanged

---
 dsptoolbox/room_acoustics/room_acoustics.py         | 3 +--
 dsptoolbox/standard/gain_and_level.py               | 7 +++----
 dsptoolbox/transfer_functions/transfer_functions.py | 3 ---
 dsptoolbox/transforms/transforms.py                 | 4 ++--
 4 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 3f66b86..2a4a323 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -180,11 +180,10 @@ def find_modes(
         "Range of frequencies must have a " + "minimum and a maximum value"
     )
     assert type(signal) is ImpulseResponse, "This is only valid for an impulse response"
-    signal.spectrum_method = SpectrumMethod.FFT
-
     # Pad signal to have a resolution of around 1 Hz
     length = signal.sampling_rate_hz
     signal = pad_trim(signal, length)
+    signal.spectrum_method = SpectrumMethod.FFT
     f, sp = signal.get_spectrum()
 
     # Setting up frequency range
diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index f5a065d..3ef5e45 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -262,10 +262,9 @@ def lufs_integrated(s: Signal) -> float:
     DIFF_GAMMA_R = 10
 
     # Filter handling amplitude
-    constrained = s.constrain_amplitude
-    s.constrain_amplitude = False
-    s_prefiltered = k_filter.filter_signal(s)
-    s.constrain_amplitude = constrained
+    s_unconstrained = s.copy()
+    s_unconstrained.constrain_amplitude = False
+    s_prefiltered = k_filter.filter_signal(s_unconstrained)
 
     # Compute blocks
     z_ji = np.mean(
diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b82a953..5eca1f5 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -900,10 +900,7 @@ def group_delay(
     f = np.fft.rfftfreq(td.shape[0], 1 / signal.sampling_rate_hz)
 
     if not analytic_computation:
-        spec_parameters = signal._spectrum_parameters
-        signal.spectrum_method = SpectrumMethod.FFT
         sp = rfft_scipy(td, axis=0)
-        signal._spectrum_parameters = spec_parameters
 
         if remove_ir_latency:
             assert (
diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2ca9f99..daad78b 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -173,7 +173,7 @@ def log_mel_spectrogram(
 
     """
     if stft_parameters is not None:
-        s.set_spectrogram_parameters(**stft_parameters)
+        s = s.copy().set_spectrogram_parameters(**stft_parameters)
     time_s, f_hz, sp = s.get_spectrogram()
 
     mfilt, f_mel = mel_filterbank(f_hz, range_hz, n_bands, normalize=True)
@@ -403,7 +403,7 @@ def mfcc(
 
     """
     if stft_parameters is not None:
-        signal.set_spectrogram_parameters(**stft_parameters)
+        signal = signal.copy().set_spectrogram_parameters(**stft_parameters)
     time_s, f, sp = signal.get_spectrogram()
 
     # Mel filters
-- 
2.43.0


From f8c6e23844e1080abfe3e3c53c33725f4fcd4134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 07/67] fix: harmonic_distortion_analysis works on copies of
 the passed impulse responses

---
 dsptoolbox/transfer_functions/transfer_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 5eca1f5..e714abb 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1551,10 +1551,10 @@ def harmonic_distortion_analysis(
                 each_ir.number_of_channels == 1
             ), "Only single-channel IRs are supported"
 
-        ir2 = ir.pop(0)
-        ir2._spectrum_parameters["smoothing"] = smoothing
+        ir2 = ir[0].copy()
+        ir2.spectrum_smoothing = smoothing
 
-        harm = ir
+        harm = [h.copy() for h in ir[1:]]
         n_harmonics = len(harm)
         if chirp_range_hz is None:
             chirp_range_hz = [0, ir2.sampling_rate_hz // 2]
-- 
2.43.0


From abb9d9842d39fb6bcd49d671f268d3e790c7262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 08/67] fix: MultiBandSignal.collapse does not accumulate into
 its first band

---
 dsptoolbox/classes/multibandsignal.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index e383c41..50e43b0 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -415,15 +415,15 @@ class MultiBandSignal:
         assert (
             self.same_sampling_rate
         ), "Collapsing is only available for same sampling rate bands"
-        if self.bands[0].time_data_imaginary is None:
-            initial = self.bands[0].time_data
-            for n in range(1, len(self.bands)):
-                initial += self.bands[n].time_data
-        else:
-            initial = zeros(self.bands[0].time_data.shape, dtype=complex128)
-            for n in range(len(self.bands)):
-                initial += self.bands[n].time_data
-                initial += self.bands[n].time_data_imaginary * 1j
+        is_complex = any(b.is_complex_signal for b in self.bands)
+        initial = zeros(
+            self.bands[0].time_data.shape,
+            dtype=complex128 if is_complex else float,
+        )
+        for b in self.bands:
+            initial += b.time_data
+            if b.time_data_imaginary is not None:
+                initial += b.time_data_imaginary * 1j
         return self.bands[0].copy_with_new_time_data(initial)
 
     def show_info(self):
-- 
2.43.0


From 33c261771a036ec9476fe0af18b0cc382ec4241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 09/67] fix: helpers do not modify windows, frames,
 coefficients or trimmed vectors of the caller

---
 dsptoolbox/classes/lattice_ladder_filter.py          | 2 +-
 dsptoolbox/helpers/other.py                          | 2 +-
 dsptoolbox/helpers/smoothing.py                      | 2 +-
 dsptoolbox/standard/_framed_signal_representation.py | 2 +-
 dsptoolbox/standard/_standard_backend.py             | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 9a3c900..b3608a4 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -466,7 +466,7 @@ def _get_lattice_ladder_coefficients_iir_sos(
     """
     # Normalize second-order sections individually
     if not np.all(sos[:, 3] == 1.0):
-        sos /= sos[:, 3]
+        sos = sos / sos[:, 3, None]
 
     n_sections = sos.shape[0]
     k = np.zeros((n_sections, 2))
diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..d0df4e0 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -247,7 +247,7 @@ def _pad_trim(
     elif diff < 0:
         if not in_the_end:
             vector = np.flip(vector, axis=0)
-        new_vec = vector[:desired_length, :]
+        new_vec = vector[:desired_length, :].copy()
         if not in_the_end:
             new_vec = np.flip(new_vec, axis=0)
     else:
diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index f53e162..2250f96 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -95,7 +95,7 @@ def _fractional_octave_smoothing(
         vector = vector[..., None]
 
     # Normalize window
-    window /= window.sum()
+    window = window / window.sum()
 
     # Smoothe by convolving with window (output is centered)
     n_window_half = n_window // 2
diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index 0d724d6..cbdcf44 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -110,7 +110,7 @@ def _reconstruct_framed_signal(
             assert (
                 window.shape[0] == td_framed.shape[0]
             ), "Window length does not match signal length"
-        td_framed *= window[:, np.newaxis, np.newaxis]
+        td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
     total_length = int(
         step_size * td_framed.shape[1]
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index bc5d875..837b65b 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -417,7 +417,7 @@ def _get_window_envelope(
 
     """
     if squared:
-        window **= 2
+        window = window**2
     envelope = np.zeros(total_length_samples)
 
     start = 0
-- 
2.43.0


From f834b944c52458528fab91e8bda6af1af3aaf159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 10/67] fix: _scale_spectrum scales a copy of the spectrum

---
 dsptoolbox/helpers/spectrum_utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 37c9d91..7b6e947 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -315,6 +315,7 @@ def _scale_spectrum(
     factor = scaling.get_scaling_factor(time_length_samples, sampling_rate_hz, window)
 
     # One-sided fix for DC and Nyquist (assuming input was linear)
+    spectrum = spectrum.copy()
     spectrum[0] /= 2**0.5
     if time_length_samples % 2 == 0:
         spectrum[-1] /= 2**0.5
-- 
2.43.0


From c81ed1910538cec5211f783fd773d35c93992fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 11/67] fix: Filter stores copies of the coefficients it is
 given

---
 dsptoolbox/classes/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 5818d95..042ffb8 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -560,7 +560,7 @@ class Filter:
         assert isinstance(sos, np.ndarray)
         assert sos.ndim == 2
         assert sos.shape[1] == 6
-        self.__sos = sos
+        self.__sos = sos.copy()
 
     @property
     def has_sos(self) -> bool:
@@ -615,7 +615,7 @@ class Filter:
             If new_zpk cannot be converted to a list.
 
         """
-        self.__zpk = list(new_zpk)
+        self.__zpk = deepcopy(list(new_zpk))
 
     @property
     def order(self):
-- 
2.43.0


From b0d57b8e5071329a2c352ade6a89d9b599bb2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 12/67] fix: Filter.filter_and_resample_signal does not add
 coefficients to the filter

---
 dsptoolbox/classes/filter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 042ffb8..5374304 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -783,9 +783,8 @@ class Filter:
         if self.is_fir:
             polyphase = True
         else:
-            if not hasattr(self, "ba"):
-                self.ba: list = list(sig.sos2tf(self.sos))
             polyphase = False
+        ba_coefficients = list(self.get_coefficients(FilterCoefficientsType.Ba))
 
         # Check if down- or upsampling is required
         if fraction[0] == 1:
@@ -795,7 +794,7 @@ class Filter:
             new_time_data = _filter_and_downsample(
                 time_data=signal.time_data,
                 down_factor=fraction[1],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba_coefficients,
                 polyphase=polyphase,
             )
         elif fraction[1] == 1:
@@ -806,7 +805,7 @@ class Filter:
             new_time_data = _filter_and_upsample(
                 time_data=signal.time_data,
                 up_factor=fraction[0],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba_coefficients,
                 polyphase=polyphase,
             )
 
-- 
2.43.0


From ea13836e65c4b25c5b0dddf8788000ef8fc151a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 13/67] fix: IIRFilter normalizes copies of the coefficients

---
 dsptoolbox/classes/iir_filter_realtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index b30fced..59298d3 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -24,8 +24,8 @@ class IIRFilter(RealtimeFilter):
             Denominator coefficients
 
         """
-        b /= a[0]
-        a /= a[0]
+        b = np.asarray(b) / a[0]
+        a = np.asarray(a) / a[0]
         self.order = max(len(b), len(a)) - 1
         self.b = np.pad(b, ((0, self.order + 1 - len(b))))
         self.a = np.pad(a, ((0, self.order + 1 - len(a))))
-- 
2.43.0


From 6dc6774c270676811b18e347097bae3ac078ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 14/67] fix: Spectrum.to_signal keeps the interpolation
 parameters of the spectrum

---
 dsptoolbox/classes/spectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3b19d30..863238a 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -395,12 +395,14 @@ class Spectrum(MultichannelData):
                 1 / sampling_rate_hz,
             )
 
-        self.set_interpolator_parameters(
+        interpolator = self.copy().set_interpolator_parameters(
             InterpolationDomain.MagnitudePhase,
             InterpolationScheme.Pchip,
             InterpolationEdgeHandling.ZeroPad,
         )
-        spectrum = self.get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
+        spectrum = interpolator.get_interpolated_spectrum(
+            requested_freqs, SpectrumType.Complex
+        )
 
         return __td_from_spec(spectrum, length_seconds, sampling_rate_hz)
 
-- 
2.43.0


From f6217f18d9803ee231b5fd30cec29c0e8e95c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 15/67] fix: calibration from the spectrum uses valid spectrum
 settings and its own copy of the recording

---
 dsptoolbox/classes/calibration_data.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index b026879..286d4e4 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -2,6 +2,7 @@ import numpy as np
 from numpy.typing import NDArray
 
 from ..standard import append_signals, rms
+from ..standard.enums import SpectrumMethod, SpectrumScaling
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
 
@@ -56,7 +57,7 @@ class CalibrationData:
                 f"{type(calibration_data)} is not a valid type. Use "
                 "either str, tuple or Signal"
             )
-        self.calibration_signal = calibration_data
+        self.calibration_signal = calibration_data.copy()
         self.calibration_spl_db = calibration_spl_db
         self.high_snr = high_snr
         # State tracker
@@ -116,10 +117,12 @@ class CalibrationData:
             self.__update = False
 
     def _get_rms_from_spectrum(self):
-        self.calibration_signal.set_spectrum_parameters(
-            method="standard", scaling="amplitude spectrum"
+        calibration_signal = self.calibration_signal.copy()
+        calibration_signal.set_spectrum_parameters(
+            method=SpectrumMethod.FFT,
+            scaling=SpectrumScaling.AmplitudeSpectrum,
         )
-        f, sp = self.calibration_signal.get_spectrum()
+        f, sp = calibration_signal.get_spectrum()
         ind1k = np.argmin(np.abs(f - 1e3))
         return np.abs(sp[ind1k, :])
 
-- 
2.43.0


From c1bc2f8854e2d572c27c4804d9658f4649ef1d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 16/67] fix: Spectrum stores a copy of the coherence

---
 dsptoolbox/classes/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 863238a..5083c8c 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -884,7 +884,7 @@ class Spectrum(MultichannelData):
             coherence.shape == self.spectral_data.shape
         ), "Length of signals and given coherence do not match"
         assert not np.iscomplexobj(coherence), "Coherence cannot be complex"
-        self.coherence = coherence
+        self.coherence = coherence.copy()
 
     def plot_magnitude(
         self,
-- 
2.43.0


From 486eba4736fa41fe26b54a6b503693d86e59df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 17/67] fix: filters and designers store copies of the
 coefficient arrays they are given

---
 dsptoolbox/classes/fir_filter_realtime.py                 | 6 +++---
 .../classes/group_delay_designer_phase_linearizer.py      | 6 +++---
 dsptoolbox/classes/kautz_filter.py                        | 4 ++--
 dsptoolbox/classes/lattice_ladder_filter.py               | 4 ++--
 dsptoolbox/classes/parallel_filter.py                     | 4 ++--
 dsptoolbox/classes/state_space_filter.py                  | 8 ++++----
 dsptoolbox/classes/warped_filters.py                      | 2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index cb3a2f6..8c59453 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -28,7 +28,7 @@ class FIRFilter(RealtimeFilter):
 
         """
         self.order = len(b) - 1
-        self.b = b
+        self.b = b.copy()
         self.set_n_channels(1)
 
     @staticmethod
@@ -86,7 +86,7 @@ class FIRFilterOverlapSave(RealtimeFilter):
 
         """
         assert b.ndim == 1, "A single dimension should be provided"
-        self.fir = b
+        self.fir = b.copy()
 
     @staticmethod
     def from_filter(fir: Filter):
@@ -171,7 +171,7 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
 
         """
         assert fir.ndim == 1
-        self.fir = fir
+        self.fir = fir.copy()
 
     @staticmethod
     def from_filter(fir: Filter):
diff --git a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
index 6cd7e99..813ea32 100644
--- a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
+++ b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
@@ -112,8 +112,8 @@ class FirDesigner:
         assert len(target_group_delay_s) == len(
             target_magnitude_response
         ), "Lengths do not match"
-        self.target_magnitude_response = target_magnitude_response
-        self.target_group_delay_s = target_group_delay_s
+        self.target_magnitude_response = target_magnitude_response.copy()
+        self.target_group_delay_s = target_group_delay_s.copy()
 
     def _get_unscaled_preprocessed_group_delay(self) -> NDArray[np.float64]:
         """Obtain reprocessed group delay for designing the FIR filter."""
@@ -277,7 +277,7 @@ class PhaseLinearizer(GroupDelayDesigner):
             also used for the designed FIR filter.
 
         """
-        self.phase_response = phase_response
+        self.phase_response = phase_response.copy()
         self.set_parameters()
         self.time_data_length_samples = time_data_length_samples
         self.sampling_rate_hz = sampling_rate_hz
diff --git a/dsptoolbox/classes/kautz_filter.py b/dsptoolbox/classes/kautz_filter.py
index 165ae93..afca940 100644
--- a/dsptoolbox/classes/kautz_filter.py
+++ b/dsptoolbox/classes/kautz_filter.py
@@ -131,8 +131,8 @@ class KautzFilter(RealtimeFilter):
         """
         assert self.n_complex_poles == len(c_complex)
         assert self.n_real_poles == len(c_real)
-        self.coefficients_real_poles = c_real
-        self.coefficients_complex_poles = c_complex
+        self.coefficients_real_poles = c_real.copy()
+        self.coefficients_complex_poles = c_complex.copy()
         return self
 
     def __compute_filters(self):
diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index b3608a4..073f52d 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -97,8 +97,8 @@ class LatticeLadderFilter(RealtimeFilter):
                 self.iir_filter = True
             else:
                 self.iir_filter = False
-        self.k = k_coefficients
-        self.c = c_coefficients
+        self.k = k_coefficients.copy()
+        self.c = None if c_coefficients is None else c_coefficients.copy()
         self.state: NDArray[np.float64] | None = None
         self.sampling_rate_hz = sampling_rate_hz
         self.set_n_channels(1)
diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index c69c405..a43c9b8 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -73,7 +73,7 @@ class ParallelFilter(RealtimeFilter):
         ), "Pole multiplicity cannot be more than 1"
         assert sampling_rate_hz > 0, "Sampling rate must be greater than 0"
 
-        self.poles = poles
+        self.poles = poles.copy()
         self.n_fir = n_fir
         self.sampling_rate_hz = sampling_rate_hz
         self.set_parameters()
@@ -131,7 +131,7 @@ class ParallelFilter(RealtimeFilter):
 
         if fir is not None:
             assert fir.ndim == 1
-            self.__fir_coefficients = fir
+            self.__fir_coefficients = fir.copy()
         else:
             self.__fir_coefficients = np.array([])
         self.n_fir = len(self.__fir_coefficients)
diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 18d3e0a..ab50e02 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -48,10 +48,10 @@ class StateSpaceFilter(RealtimeFilter):
         """
         assert A.ndim == 2, "Matrix A should have exactly 2 dimensions"
         assert len(B) == A.shape[1], "Matrix B dimensions are not valid"
-        self.A = A.squeeze()
-        self.B = B.squeeze()
-        self.C = C.squeeze()
-        self.D = D.squeeze()
+        self.A = A.squeeze().copy()
+        self.B = B.squeeze().copy()
+        self.C = C.squeeze().copy()
+        self.D = D.squeeze().copy()
         self.set_n_channels(1)
 
     @staticmethod
diff --git a/dsptoolbox/classes/warped_filters.py b/dsptoolbox/classes/warped_filters.py
index 1d1675b..d87f96a 100644
--- a/dsptoolbox/classes/warped_filters.py
+++ b/dsptoolbox/classes/warped_filters.py
@@ -50,7 +50,7 @@ class WarpedFIR(RealtimeFilter):
         """
         assert abs(warping_factor) < 1.0, "Warping factor must be in range ]-1;1["
         self.sampling_rate_hz = sampling_rate_hz
-        self.b = b
+        self.b = b.copy()
         self.warp = warping_factor
         self.N = len(self.b)
         self.order = len(self.b) - 1
-- 
2.43.0


From 2a3a505657b2b06c8c47f19b3ac39b3b81058520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 18/67] fix: Tremolo and Chorus accept array modulators and
 effects copy the arrays they are given

---
 dsptoolbox/effects/effects.py | 44 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d8bd109..99e4224 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -233,7 +233,7 @@ class SpectralSubtractor(AudioEffect):
                 assert (
                     type(spectrum_to_subtract) is np.ndarray
                 ), "Spectrum to subtract must be of type numpy.ndarray"
-                spectrum_to_subtract = np.squeeze(spectrum_to_subtract)
+                spectrum_to_subtract = np.squeeze(spectrum_to_subtract).copy()
                 assert spectrum_to_subtract.ndim == 1, (
                     "Spectrum to subtract could not be broadcasted to " + "a 1D-Array"
                 )
@@ -672,8 +672,8 @@ class Distortion(AudioEffect):
 
         # Rearrange the other
         self.mix = mix_percent / 100
-        self.distortion_levels = np.atleast_1d(distortion_levels_db)
-        self.offset_db = np.atleast_1d(offset_db)
+        self.distortion_levels = np.atleast_1d(distortion_levels_db).copy()
+        self.offset_db = np.atleast_1d(offset_db).copy()
 
         # Add extra 'clean' stage if only one distortion type is passed
         if n == 1:
@@ -1051,10 +1051,10 @@ class Tremolo(AudioEffect):
         if modulator is not None:
             assert type(modulator) in (
                 LFO,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulator type. Use LFO or numpy.ndarray"
-            if type(modulator) is NDArray[np.float64]:
-                modulator = modulator.squeeze()
+            if type(modulator) is np.ndarray:
+                modulator = modulator.squeeze().copy()
                 assert modulator.ndim == 1, "Modulator signal can have only one channel"
             self.modulator = modulator
 
@@ -1180,13 +1180,18 @@ class Chorus(AudioEffect):
         if modulators is not None:
             if type(modulators) in (list, tuple):
                 nv_mod = len(modulators)
-            elif type(modulators) is NDArray[np.float64]:
-                modulators = np.atleast_2d(modulators)
+            elif type(modulators) is np.ndarray:
+                if modulators.ndim == 1:
+                    modulators = modulators[..., None]
                 nv_mod = modulators.shape[1]
             else:
                 nv_mod = 1
         else:
-            nv_mod = len(self.modulators)
+            nv_mod = (
+                self.modulators.shape[1]
+                if type(self.modulators) is np.ndarray
+                else len(self.modulators)
+            )
 
         # Extract number of voices
         self.number_of_voices = max(nv_base, nv_depths, nv_mod)
@@ -1198,7 +1203,7 @@ class Chorus(AudioEffect):
                 1,
                 self.number_of_voices,
             ), "Base delays can only be length 1 or number of voices"
-            self.base_delays_ms = base_delays_ms
+            self.base_delays_ms = base_delays_ms.copy()
             if len(self.base_delays_ms) == 1:
                 self.base_delays_ms = np.repeat(
                     self.base_delays_ms, self.number_of_voices
@@ -1209,16 +1214,15 @@ class Chorus(AudioEffect):
                 LFO,
                 list,
                 tuple,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulators type. Use LFO or numpy.ndarray"
-            if type(modulators) is NDArray[np.float64]:
-                modulators = np.atleast_2d(modulators)
-                modulators.shape[1] == self.number_of_voices, (
+            if type(modulators) is np.ndarray:
+                assert modulators.shape[1] == self.number_of_voices, (
                     "The modulators signal must "
                     + "have the same number of channels as there are "
                     + f"voices {self.number_of_voices}"
                 )
-                self.modulators = modulators
+                self.modulators = modulators.copy()
             elif type(modulators) is LFO:
                 self.modulators = [modulators] * self.number_of_voices
             else:
@@ -1229,14 +1233,14 @@ class Chorus(AudioEffect):
                 assert all(
                     [type(i) is LFO for i in modulators]
                 ), "All modulators signals have to be of type LFO"
-                self.modulators = modulators
+                self.modulators = list(modulators)
                 if len(self.modulators) == 1:
                     self.modulators = [self.modulators[0]] * self.number_of_voices
 
         if depths_ms is not None:
             if type(self.modulators) is LFO:
                 assert depths_ms >= 0, "Depth must be above 0"
-            self.depths_ms = np.atleast_1d(depths_ms)
+            self.depths_ms = np.atleast_1d(depths_ms).copy()
             assert len(self.depths_ms) in (1, self.number_of_voices), (
                 "Depth must be of length 1 or number of "
                 + f"voices {self.number_of_voices}"
@@ -1290,7 +1294,7 @@ class Chorus(AudioEffect):
         le = len(signal)
 
         # Get valid modulation signals
-        if type(self.modulators) is not NDArray[np.float64]:
+        if type(self.modulators) is not np.ndarray:
             modulation = np.zeros((le, self.number_of_voices))
             for ind, m in enumerate(self.modulators):
                 modulation[:, ind] = (
@@ -1298,7 +1302,9 @@ class Chorus(AudioEffect):
                     + self.base_delays_ms[ind]
                 )
         else:
-            modulation = _pad_trim(self.modulators.copy(), len(signal))
+            modulation = (
+                _pad_trim(self.modulators, le) * self.depths_ms + self.base_delays_ms
+            )
 
         # Delays in samples
         modulation = np.round(modulation * 1e-3 * fs).astype(int)
-- 
2.43.0


From 2ef3033277933cefa6d75d8a3818ca1fb10d9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 19/67] fix: check the window passed to the framed
 reconstruction

---
 dsptoolbox/standard/_framed_signal_representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index cbdcf44..b6fe18a 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -105,7 +105,7 @@ def _reconstruct_framed_signal(
     if window is not None:
         if type(window) is str:
             window = windows.get_window(window, td_framed.shape[0])
-        elif type(window) is NDArray[np.float64]:
+        else:
             assert window.ndim == 1, "Window must be a 1D-array"
             assert (
                 window.shape[0] == td_framed.shape[0]
-- 
2.43.0


From 2b1397e56b5954bca5c5c413b187fa5ad3fd65e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 20/67] fix: QMFCrossover holds copies of the prototype filter

---
 dsptoolbox/filterbanks/_filterbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a2b65dc..632347e 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1147,7 +1147,7 @@ class QMFCrossover(BaseCrossover):
             )
             # Type of filter bank
             self.fir_filterbank = False
-        return [lowpass, highpass]
+        return [lowpass.copy(), highpass]
 
     def _get_synthesis_filters(self, lowpass: Filter):
         """Create and return synthesis filters based on a lowpass prototype.
@@ -1206,7 +1206,7 @@ class QMFCrossover(BaseCrossover):
                 sampling_rate_hz=lowpass.sampling_rate_hz,
             )
 
-        return [lowpass, hp_filter]
+        return [lowpass.copy(), hp_filter]
 
 
 def _crossover_downsample(
-- 
2.43.0


From ce83b21fe40c5d53c4c3648cb4da67f14a705f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 21/67] fix: add_detailed_absorption works on a copy of the
 dictionary

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9b386d4..0233e9e 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -739,6 +739,7 @@ class ShoeboxRoom(Room):
 
         # Check absorption values and derive number of bands
         number_of_bands = 1
+        detailed_absorption = dict(detailed_absorption)
         for i in detailed_absorption:
             ab = np.atleast_1d(detailed_absorption[i])
             if len(ab) == 1:
-- 
2.43.0


From aea8a448d765ccb5c43a91cffa96409e8855da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 22/67] fix: mix_sources_on_array leaves the passed sources
 unchanged

---
 dsptoolbox/beamforming/beamforming.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index b1ef07c..8870f4e 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1490,10 +1490,9 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
-    sources.pop(0)
 
     # Add all other sources progressively checking for shortest duration
-    for s in sources:
+    for s in sources[1:]:
         # Warning if lengths do not match
         if total_length_samples != s.emitted_signal.time_data.shape[0]:
             warn(
@@ -1504,10 +1503,9 @@ def mix_sources_on_array(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
             multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
-            s.emitted_signal = pad_trim(s.emitted_signal, total_length_samples)
         # Add to multi-channel data
         ns = s.get_signals_on_array(mics, c)
-        multi_channel_sig.time_data += ns.time_data
+        multi_channel_sig.time_data += ns.time_data[:total_length_samples]
     return multi_channel_sig
 
 
-- 
2.43.0


From 52b6c9abaf83856bcc292c9c5065564b3ad8131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 23/67] fix: append_signals uses each band of the first
 multi-band signal

---
 dsptoolbox/standard/appending.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/appending.py b/dsptoolbox/standard/appending.py
index 54b93e5..cd293f9 100644
--- a/dsptoolbox/standard/appending.py
+++ b/dsptoolbox/standard/appending.py
@@ -115,7 +115,7 @@ def append_signals(
         signals_without_first = signals.copy()  # Shallow copy
         signals_without_first.pop(0)
         for n in range(signals[0].number_of_bands):
-            new_band = signals[0].bands[0].copy()
+            new_band = signals[0].bands[n].copy()
             for s in signals_without_first:
                 new_band = append_signals(
                     [new_band, s.bands[n]], allow_padding_trimming, at_end
-- 
2.43.0


From 2611377e2c817bc9c82ebb2edbdced54e5fb45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 24/67] fix: grid plot_map no longer passes an unknown argument

---
 dsptoolbox/beamforming/beamforming.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 8870f4e..184e568 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -210,7 +210,6 @@ class Regular2DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
@@ -358,7 +357,6 @@ class Regular3DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
-- 
2.43.0


From b60a227fda6d0de08269c9f86d9b212ae763a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 25/67] fix: general_subplots_line without x labels

---
 dsptoolbox/plots/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/plots/plots.py b/dsptoolbox/plots/plots.py
index 7207604..6e461c4 100644
--- a/dsptoolbox/plots/plots.py
+++ b/dsptoolbox/plots/plots.py
@@ -352,7 +352,7 @@ def general_subplots_line(
             ax[n].set_xlim(range_x)
         if range_y is not None:
             ax[n].set_ylim(range_y)
-    if type(xlabels) is str or len(xlabels) == 1:
+    if xlabels is not None and (type(xlabels) is str or len(xlabels) == 1):
         ax[-1].set_xlabel(xlabels)
     fig.tight_layout()
     return fig, ax
-- 
2.43.0


From c4ec947d77a35b874355537bb49b1cbcdd298d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 26/67] fix: StateVariableFilter.get_ir keeps the running
 filter state

---
 dsptoolbox/classes/sv_filter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index f1585b2..6644a95 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -160,8 +160,11 @@ class StateVariableFilter(RealtimeFilter):
 
         """
         d = dirac(length_samples, sampling_rate_hz=self.sampling_rate_hz)
-        self.reset_state()
-        return self.filter_signal(d)
+        state, n_channels = self.state, self.n_channels
+        self.set_n_channels(1)
+        ir = self.filter_signal(d)
+        self.state, self.n_channels = state, n_channels
+        return ir
 
     def plot_magnitude(
         self,
-- 
2.43.0


From 1282dd7328e8eb4d86fd39f9b08d1332c0f0b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 27/67] fix: StateVariableFilter.plot_magnitude uses a valid
 normalization

---
 dsptoolbox/classes/sv_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index 6644a95..104608a 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -12,7 +12,7 @@ from .signal import Signal
 from .multibandsignal import MultiBandSignal
 from ..generators import dirac
 from .realtime_filter import RealtimeFilter
-from ..standard.enums import SpectrumMethod
+from ..standard.enums import MagnitudeNormalization, SpectrumMethod
 
 
 class StateVariableFilter(RealtimeFilter):
@@ -193,7 +193,7 @@ class StateVariableFilter(RealtimeFilter):
         d.spectrum_method = SpectrumMethod.FFT
         fig, ax = d.plot_magnitude(
             range_hz=range_hz,
-            normalize=None,
+            normalize=MagnitudeNormalization.NoNormalization,
             range_db=range_db,
             smoothing=0,
         )
-- 
2.43.0


From 8636f810ec850a7600383a3be06789ef35112819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 28/67] fix: crossover magnitude plot in summed mode

---
 dsptoolbox/filterbanks/_filterbank.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 632347e..caded7f 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1060,7 +1060,14 @@ class BaseCrossover(FilterBank):
             bs.spectrum_method = SpectrumMethod.FFT
             f, sp = bs.get_spectrum()
             f, sp = _get_normalized_spectrum(
-                f, np.squeeze(sp), f_range_hz=range_hz, normalize=None
+                f=f,
+                spectra=np.squeeze(sp),
+                is_amplitude_scaling=bs.spectrum_scaling.is_amplitude_scaling(),
+                f_range_hz=range_hz,
+                normalize=MagnitudeNormalization.NoNormalization,
+                smoothing=0,
+                phase=False,
+                calibrated_data=False,
             )
             fig, ax = general_plot(
                 f,
-- 
2.43.0


From 643556a38a79929cb5d395df0736ebbafa3427eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 29/67] fix: normalized spectra with power scaling are smoothed
 and use the first channel

---
 dsptoolbox/helpers/spectrum_utilities.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 7b6e947..0b6901b 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -153,16 +153,14 @@ def _get_normalized_spectrum(
     f = f[id1:id2]
 
     if smoothing != 0:
-        if is_amplitude_scaling:
-            mag_spectra = (
-                _fractional_octave_smoothing(mag_spectra, None, smoothing)
-                if is_amplitude_scaling
-                else (
-                    # Smoothing always in amplitude representation
-                    _fractional_octave_smoothing(mag_spectra**0.5, None, smoothing)
-                    ** 2
-                )
+        mag_spectra = (
+            _fractional_octave_smoothing(mag_spectra, None, smoothing)
+            if is_amplitude_scaling
+            else (
+                # Smoothing always in amplitude representation
+                _fractional_octave_smoothing(mag_spectra**0.5, None, smoothing) ** 2
             )
+        )
 
     mag_spectra_db = to_db(mag_spectra / scale_factor, is_amplitude_scaling, 500)
 
@@ -193,7 +191,11 @@ def _get_normalized_spectrum(
         case MagnitudeNormalization.EnergyFirstChannel:
             normalization_db = to_db(
                 np.mean(
-                    (mag_spectra[:, 0] ** 2.0 if is_amplitude_scaling else mag_spectra),
+                    (
+                        mag_spectra[:, 0] ** 2.0
+                        if is_amplitude_scaling
+                        else mag_spectra[:, 0]
+                    ),
                     axis=0,
                     keepdims=True,
                 ),
-- 
2.43.0


From 4803104f3f98cd9c6e7fb82a16b78a9e0ccf8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 30/67] fix: filter state is stored per channel after filtering

---
 dsptoolbox/classes/filter_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 004644c..65162d0 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -282,6 +282,7 @@ def _filter_on_signal(
         zi_new = []
         for n in range(signal.number_of_channels):
             zi_new.append(zi[:, :, n])
+        zi = zi_new
     return new_signal, zi
 
 
@@ -379,6 +380,7 @@ def _filter_on_signal_ba(
         zi_new = []
         for n in range(zi.shape[1]):
             zi_new.append(zi[:, n])
+        zi = zi_new
     return new_signal, zi
 
 
-- 
2.43.0


From 867a51cd6e4d808f0942d25b142b9a950dfcccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 31/67] fix: LRFilterBank holds separate allpass states for
 each crossover

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index caded7f..021342a 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -207,7 +207,7 @@ class LRFilterBank:
                     allp_zi_l = sosfilt_zi(self.sos[i2][0])  # Low band
                     allp_zi_h = sosfilt_zi(self.sos[i2][1])  # High band
                     al.append([allp_zi_l, allp_zi_h])
-                    allpass_zi.append(al)
+                allpass_zi.append(al)
             self.channels_zi.append([cross_zi, allpass_zi])
 
     # ======== Filtering ======================================================
-- 
2.43.0


From 14a18649774845832378a937822aae846c411459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 32/67] fix: ExponentialAverageFilter compares with the state
 of the channel

---
 dsptoolbox/classes/exponential_average_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/exponential_average_filter.py b/dsptoolbox/classes/exponential_average_filter.py
index 307348c..2b0cb3a 100644
--- a/dsptoolbox/classes/exponential_average_filter.py
+++ b/dsptoolbox/classes/exponential_average_filter.py
@@ -47,7 +47,7 @@ class ExponentialAverageFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
-        if x > self.state:  # Ascending
+        if x > self.state[0, channel]:  # Ascending
             y = (
                 x * self.increase_coefficient
                 + (1 - self.increase_coefficient) * self.state[0, channel]
-- 
2.43.0


From e27a2db2cdc53e8be531a46f930ab78a6fb06b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 33/67] fix: FIRUniformPartitioned holds one buffer index per
 channel

---
 dsptoolbox/classes/fir_filter_realtime.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 8c59453..09d2220 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -198,8 +198,8 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
             partitioned[: len(partition), n] = partition
         self.partitioned_spectrum = fft.rfft(partitioned, axis=0, n=self.fft_size)
 
-        # Buffer index for filter
-        self.buffer_ind = 0
+        # Buffer index for filter (per channel)
+        self.buffer_ind = np.zeros(n_channels, dtype=np.int_)
 
         # Helper for avoiding allocations in process
         self.buffer_index_helper = np.arange(self.n_partitions)
@@ -219,22 +219,20 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.input_buffer[-self.blocksize :, channel] = block
 
         # Transform input
-        self.buffer_spectra[:, self.buffer_ind, channel] = fft.rfft(
+        buffer_ind = self.buffer_ind[channel]
+        self.buffer_spectra[:, buffer_ind, channel] = fft.rfft(
             self.input_buffer[:, channel]
         )
 
         # Accumulate output of all filters with buffers
         output = np.sum(
             self.partitioned_spectrum
-            * self.buffer_spectra[
-                :, self.buffer_ind - self.buffer_index_helper, channel
-            ],
+            * self.buffer_spectra[:, buffer_ind - self.buffer_index_helper, channel],
             axis=1,
         )
 
         # Advance filter buffer
-        self.buffer_ind += 1
-        self.buffer_ind %= self.n_partitions
+        self.buffer_ind[channel] = (buffer_ind + 1) % self.n_partitions
 
         # Get output
         return fft.irfft(output)[-self.blocksize :]
-- 
2.43.0


From aba4126f0f951a6d4bee93f202e1407779ff9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 34/67] fix: ParallelFilter updates its real-time filters with
 the coefficients and delay

---
 dsptoolbox/classes/parallel_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index a43c9b8..c60a8eb 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -106,6 +106,8 @@ class ParallelFilter(RealtimeFilter):
             if delay_iir_samples is None
             else delay_iir_samples
         )
+        if hasattr(self, "filter_bank"):
+            self.__compute_real_time_filters()
         return self
 
     def set_coefficients(
@@ -135,6 +137,7 @@ class ParallelFilter(RealtimeFilter):
         else:
             self.__fir_coefficients = np.array([])
         self.n_fir = len(self.__fir_coefficients)
+        self.__compute_filter_bank()
         return self
 
     def fit_to_ir(self, ir: ImpulseResponse):
-- 
2.43.0


From 443220950f80f3bcc787f50fd7477529bed6ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 35/67] fix: containers keep their own list and metadata of
 what they are given

---
 dsptoolbox/classes/filter_chain.py    | 2 +-
 dsptoolbox/classes/filterbank.py      | 4 ++--
 dsptoolbox/classes/multibandsignal.py | 4 ++--
 dsptoolbox/effects/effects.py         | 2 ++
 dsptoolbox/filterbanks/_filterbank.py | 4 ++--
 5 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/filter_chain.py b/dsptoolbox/classes/filter_chain.py
index a731d67..5b1b29c 100644
--- a/dsptoolbox/classes/filter_chain.py
+++ b/dsptoolbox/classes/filter_chain.py
@@ -15,7 +15,7 @@ class FilterChain(RealtimeFilter):
             List containing the filters.
 
         """
-        self.filters = filters
+        self.filters = list(filters)
 
     @property
     def n_filters(self):
diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 31e200f..b5016c1 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -69,7 +69,7 @@ class FilterBank:
             info = {}
         self.same_sampling_rate = same_sampling_rate
         self.filters: list[Filter] = filters if filters is not None else []
-        self.info: dict = info
+        self.info: dict = dict(info)
 
     @staticmethod
     def firs_from_file(path: str):
@@ -238,7 +238,7 @@ class FilterBank:
                     assert (
                         f.sampling_rate_hz == self.sampling_rate_hz
                     ), "Sampling rates do not match"
-        self.__filters = new_filters
+        self.__filters = list(new_filters)
 
     @property
     def number_of_filters(self) -> int:
diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 50e43b0..0c94b70 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -51,7 +51,7 @@ class MultiBandSignal:
             info = {}
         self.same_sampling_rate = same_sampling_rate
         self.bands = bands if bands is not None else []
-        self.info: dict = info
+        self.info: dict = dict(info)
 
     # ======== Properties and setters =========================================
     @property
@@ -180,7 +180,7 @@ class MultiBandSignal:
                         + "This behaviour is not supported if there is a "
                         + "constant sampling rate"
                     )
-        self.__bands: list[Signal] = new_bands
+        self.__bands: list[Signal] = list(new_bands)
 
     @property
     def same_sampling_rate(self) -> bool:
diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 99e4224..a59684c 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -244,6 +244,8 @@ class SpectralSubtractor(AudioEffect):
                         + "adaptive mode to False"
                     )
                     self.adaptive_mode = False
+            else:
+                spectrum_to_subtract = False
             self.spectrum_to_subtract = spectrum_to_subtract
 
     def set_advanced_parameters(
diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 021342a..4ee3a95 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -310,8 +310,8 @@ class LRFilterBank:
             b.append(s.copy_with_new_time_data(new_time_data[:, :, n]))
         d = dict(
             readme="MultiBandSignal made using Linkwitz-Riley filter bank",
-            filterbank_freqs=self.freqs,
-            filterbank_order=self.order,
+            filterbank_freqs=self.freqs.copy(),
+            filterbank_order=self.order.copy(),
         )
         out_sig = MultiBandSignal(bands=b, same_sampling_rate=True, info=d)
         if mode == FilterBankMode.Summed:
-- 
2.43.0


From 452f88d3ec94eb5319d79ee32a3f56ad58654443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 36/67] fix: DigitalDelay accepts a callable saturation

---
 dsptoolbox/effects/effects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index a59684c..f1d7cab 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1400,7 +1400,8 @@ class DigitalDelay(AudioEffect):
         """
         if saturation is None:
             saturation = "digital"
-        saturation = saturation.lower()
+        if not callable(saturation):
+            saturation = saturation.lower()
         if saturation == "digital":
 
             def func(x):
-- 
2.43.0


From a68fc388ca8417b491b429a56789b0660ea163a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 37/67] fix: DigitalDelay.set_parameters leaves parameters
 passed as None unchanged

---
 dsptoolbox/effects/effects.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index f1d7cab..efc6daa 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1357,13 +1357,15 @@ class DigitalDelay(AudioEffect):
         self.__set_parameters(delay_time_ms, feedback)
         self.set_advanced_parameters()
 
-    def __set_parameters(self, delay_time_ms: float, feedback: int):
+    def __set_parameters(self, delay_time_ms: float | None, feedback: float | None):
         """Internal method to change parameters."""
-        assert delay_time_ms > 0, "Delay time must be larger than 0"
-        self.delay_ms = delay_time_ms
+        if delay_time_ms is not None:
+            assert delay_time_ms > 0, "Delay time must be larger than 0"
+            self.delay_ms = delay_time_ms
 
-        assert feedback > 0, "Feedback must be larger than one"
-        self.feedback = feedback
+        if feedback is not None:
+            assert feedback > 0, "Feedback must be larger than one"
+            self.feedback = feedback
 
     def set_parameters(
         self, delay_time_ms: float | None = None, feedback: float | None = None
-- 
2.43.0


From 9243afc9e657bf09da9d72c407320c058a0a00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 38/67] fix: time_vector_s hands out a copy of the cached
 vector

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 3513a9f..efdbf12 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -376,7 +376,7 @@ class Signal(MultichannelData):
         """Corresponding time vector for the signal."""
         if self.__time_vector_update:
             self._generate_time_vector()
-        return self.__time_vector_s
+        return self.__time_vector_s.copy()
 
     @property
     def time_data_imaginary(self) -> NDArray[np.float64] | None:
-- 
2.43.0


From 15217953bb0c1fe1462810728856f069993ebcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 39/67] fix: derived room parameters follow the volume and the
 reverberation time

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 0233e9e..270cfb0 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -327,13 +327,15 @@ class Room:
             self.t60_s = t60_s
             self.absorption_coefficient = absorption_coefficient
 
-        # Derived values
-        self.schroeders_frequency = 2000 * np.sqrt(self.t60_s / self.volume)
+    # ============== Properties ===============================================
+    @property
+    def schroeders_frequency(self) -> float:
+        return 2000 * np.sqrt(self.t60_s / self.volume)
 
-        # Critical distance
-        self.critical_distance_m = 0.057 * np.sqrt(self.volume / self.t60_s)
+    @property
+    def critical_distance_m(self) -> float:
+        return 0.057 * np.sqrt(self.volume / self.t60_s)
 
-    # ============== Properties ===============================================
     @property
     def volume(self):
         return self.__volume
-- 
2.43.0


From bfe8235968b51852f378fa46395ead3c5ddcd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 40/67] fix: MicArray discards derived geometry when its
 coordinates change

---
 dsptoolbox/beamforming/_beamforming.py | 5 +++++
 dsptoolbox/beamforming/beamforming.py  | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 4967479..5174f3a 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -76,6 +76,11 @@ class BasePoints:
         self.dim = dimensions
         self.ndim = ndimensions
         self._coordinates = new_r
+        self._reset_derived_values()
+
+    def _reset_derived_values(self):
+        """Called when the coordinates change. Subclasses that keep values
+        derived from them discard these here."""
 
     @property
     def extent(self):
diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 184e568..701e798 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -467,6 +467,9 @@ class MicArray(BasePoints):
 
         """
         super().__init__(positions)
+        self._reset_derived_values()
+
+    def _reset_derived_values(self):
         # Initialize aperture and minimum distance between microphones as None
         # (computation is only done on demand)
         self.__array_center_coordinates = None
@@ -493,7 +496,7 @@ class MicArray(BasePoints):
     def array_center_coordinates(self):
         if self.__array_center_coordinates is None:
             self.__compute_array_center()
-        return self.__array_center_coordinates
+        return self.__array_center_coordinates.copy()
 
     @property
     def array_center_channel_number(self):
-- 
2.43.0


From 1016a1c19eb724460227b2f8c05c5a05514edd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 41/67] fix: a room given both T60 and absorption is rejected
 with a clear error

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 270cfb0..2d910ce 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -304,6 +304,9 @@ class Room:
 
         """
         assert area_m2 > 0, "Room surface area has to be positive"
+        assert (
+            t60_s is None or absorption_coefficient is None
+        ), "Either T60 or the absorption coefficient should be passed, not both"
         self.volume = volume_m3
         self.area = area_m2
 
-- 
2.43.0


From 62535ece5dc0690d5b4108832a7752712653e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 42/67] fix: crest_factor of a multi-band signal is converted
 to dB once

---
 dsptoolbox/standard/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 3ef5e45..fdaa159 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -392,7 +392,7 @@ def crest_factor(
     elif isinstance(sig, MultiBandSignal):
         crest = np.zeros((sig.number_of_bands, sig.number_of_channels))
         for ind, b in enumerate(sig):
-            crest[ind, :] = crest_factor(b, in_db, use_true_peak)
+            crest[ind, :] = crest_factor(b, False, use_true_peak)
     else:
         raise TypeError(
             "Passed signal should be either a Signal or " + "MultiBandSignal type"
-- 
2.43.0


From ebbee6bf173fa99270e1c3733bde7fdcf1afa65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 43/67] fix: points with negative coordinates are not inside a
 shoebox room

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 2d910ce..2c5a94c 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -451,7 +451,9 @@ class ShoeboxRoom(Room):
 
         """
         coordinates_m = np.squeeze(coordinates_m)
-        return bool(np.all(coordinates_m <= self.dimensions_m))
+        return bool(
+            np.all(coordinates_m >= 0.0) and np.all(coordinates_m <= self.dimensions_m)
+        )
 
     def get_mixing_time(
         self,
-- 
2.43.0


From 53f0327b1263db271cce38a1b730d289c3d9678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 44/67] fix: plot_waterfall works for any channel

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index daad78b..309389c 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -322,7 +322,7 @@ def plot_waterfall(
     ax.plot_surface(
         tt,
         ff,
-        to_db(stft[..., channel], amplitude_scaling, dynamic_range_db),
+        to_db(stft[..., 0], amplitude_scaling, dynamic_range_db),
         cmap="magma",
     )
     ax.set_xlabel("Time / s")
-- 
2.43.0


From bbd8d22eb945a5ff193ab425f0abe3b3e9760f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 45/67] fix: ParallelFilter.fit_to_ir checks the sampling rate
 of the IR

---
 dsptoolbox/classes/parallel_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index c60a8eb..b7d38fb 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -158,6 +158,9 @@ class ParallelFilter(RealtimeFilter):
 
         """
         assert ir.number_of_channels == 1, "This is only valid for a single-channel IR"
+        assert (
+            ir.sampling_rate_hz == self.sampling_rate_hz
+        ), "Sampling rates do not match"
         freqs, spectrum_channels = ir.get_spectrum()
         freqs = freqs[1:]
         spectrum_channels = spectrum_channels[1:]
-- 
2.43.0


From e57617e7d93d360d156fb365891f2bc54244d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 46/67] fix: gammatone reconstruction checks the sampling rate
 of the bands

---
 dsptoolbox/filterbanks/_filterbank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 4ee3a95..6d4222e 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -808,6 +808,9 @@ class GammaToneFilterBank(FilterBank):
         assert condition, (
             "Not all bands have imaginary time data. Reconstruction cannot " + "be done"
         )
+        assert (
+            signal.sampling_rate_hz == self.sampling_rate_hz
+        ), "Sampling rates do not match"
         shape = (
             signal.number_of_bands,
             signal.bands[0].time_data.shape[0],
-- 
2.43.0


From 1a35adde2bd4975a4c4becbfe3bfb502438ec1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 47/67] fix: switching a container to a common sampling rate
 checks its members

---
 dsptoolbox/classes/filterbank.py      | 14 +++++++++++++-
 dsptoolbox/classes/multibandsignal.py | 17 +++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index b5016c1..37d947c 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -67,6 +67,7 @@ class FilterBank:
         """
         if info is None:
             info = {}
+        self.__filters: list[Filter] = []
         self.same_sampling_rate = same_sampling_rate
         self.filters: list[Filter] = filters if filters is not None else []
         self.info: dict = dict(info)
@@ -288,11 +289,22 @@ class FilterBank:
         Raises
         ------
         AssertionError
-            If new_same is not a boolean.
+            If new_same is not a boolean, or if it is True and the filters do
+            not share the sampling rate.
 
         """
         assert type(new_same) is bool, "same_sampling_rate must be a boolean"
+        if new_same:
+            assert all(
+                [
+                    f.sampling_rate_hz == self.__filters[0].sampling_rate_hz
+                    for f in self.__filters
+                ]
+            ), "Not all filters have the same sampling rate"
         self.__same_sampling_rate = new_same
+        if self.__filters:
+            # Update the sampling rate(s)
+            self.filters = self.__filters
 
     # ======== Add and remove =================================================
     def add_filter(self, filt: Filter, index: int = -1) -> Self:
diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 0c94b70..39ca444 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -49,6 +49,7 @@ class MultiBandSignal:
         """
         if info is None:
             info = {}
+        self.__bands: list[Signal] = []
         self.same_sampling_rate = same_sampling_rate
         self.bands = bands if bands is not None else []
         self.info: dict = dict(info)
@@ -180,7 +181,7 @@ class MultiBandSignal:
                         + "This behaviour is not supported if there is a "
                         + "constant sampling rate"
                     )
-        self.__bands: list[Signal] = list(new_bands)
+        self.__bands = list(new_bands)
 
     @property
     def same_sampling_rate(self) -> bool:
@@ -209,7 +210,8 @@ class MultiBandSignal:
         Raises
         ------
         AssertionError
-            If new_same is not a boolean.
+            If new_same is not a boolean, or if it is True and the bands do
+            not share sampling rate and duration.
 
         Notes
         -----
@@ -218,7 +220,18 @@ class MultiBandSignal:
 
         """
         assert type(new_same) is bool, "Same sampling rate attribute must be a boolean"
+        if new_same:
+            assert all(
+                [
+                    b.sampling_rate_hz == self.__bands[0].sampling_rate_hz
+                    and b.length_samples == self.__bands[0].length_samples
+                    for b in self.__bands
+                ]
+            ), "Not all bands have the same sampling rate and duration"
         self.__same_sampling_rate = new_same
+        if self.__bands:
+            # Update the sampling rate(s)
+            self.bands = self.__bands
 
     @property
     def number_of_bands(self) -> int:
-- 
2.43.0


From a5da4d5121c98691ff736254a22f3ebdb93056ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 48/67] fix: reverb_time uses the start of the impulse response
 it is given

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 2c5a94c..eb6b953 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -57,6 +57,8 @@ def _reverb(
     acoustical parameters. pp. 22.
 
     """
+    if ir_start is not None:
+        h = h[ir_start:]
     edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz)
     time_vector = np.linspace(0, len(edc) / fs_hz, len(edc))
 
-- 
2.43.0


From 0324710b863c48113befa9eb2d8e5dd3a8ebb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 49/67] fix: descriptors of a MultiBandSignal honour
 automatic_trimming_rir

---
 dsptoolbox/room_acoustics/room_acoustics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 2a4a323..ddee857 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -509,7 +509,11 @@ def descriptors(
         )
         desc = np.zeros((rir.number_of_bands, rir.number_of_channels))
         for ind, b in enumerate(rir):
-            desc[ind, :] = descriptors(b, descriptor=descriptor)
+            desc[ind, :] = descriptors(
+                b,
+                descriptor=descriptor,
+                automatic_trimming_rir=automatic_trimming_rir,
+            )
     else:
         raise TypeError("RIR must be of type Signal or MultiBandSignal")
     return desc
-- 
2.43.0


From bab503267eb1855ac4d0f2d86ea9b855a58e0c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 50/67] fix: plot_csm(with_phase=False) does not draw the phase

---
 dsptoolbox/classes/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/plots.py b/dsptoolbox/classes/plots.py
index bab4e72..b8b75ab 100644
--- a/dsptoolbox/classes/plots.py
+++ b/dsptoolbox/classes/plots.py
@@ -59,7 +59,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
                 ax[c1, c2].set_xticks(ticks)
                 ax[c1, c2].get_xaxis().set_major_formatter(ScalarFormatter())
             ax[c1, c2].plot(f, to_db(csm[:, c1, c2], False))
-            if c1 != c2:
+            if with_phase and c1 != c2:
                 axRight = ax[c1, c2].twinx()
                 axRight.plot(
                     f,
@@ -71,7 +71,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
                 axRight.grid(False)
             if c1 == ch - 1:
                 ax[c1, c2].set_xlabel("Hz")
-            if c2 == ch - 1:
+            if with_phase and c2 == ch - 1:
                 axRight.set_ylabel("rad")
     fig.tight_layout()
     return fig, ax
-- 
2.43.0


From 0c6ee00c78f9d799cca5d103689dcb96201273a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 51/67] fix: the compressor applies its post-compression gain

---
 dsptoolbox/effects/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index efc6daa..ddbe078 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1011,7 +1011,7 @@ class Compressor(AudioEffect):
             td = self._restore_rms_values(td)
 
         # Post-compression gain
-        td = self._add_gain_in_db(td, self.pre_gain_db)
+        td = self._add_gain_in_db(td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(td)
 
-- 
2.43.0


From 6833de08c120561e21b03b8516fe6c3d478d436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 52/67] fix: chirp honours phase_offset for synchronized sweeps

---
 dsptoolbox/generators/_generators.py | 11 +++++++++--
 dsptoolbox/generators/generators.py  |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/generators/_generators.py b/dsptoolbox/generators/_generators.py
index d711db6..d4bdcc1 100644
--- a/dsptoolbox/generators/_generators.py
+++ b/dsptoolbox/generators/_generators.py
@@ -3,7 +3,10 @@ from numpy.typing import NDArray
 
 
 def _sync_log_chirp(
-    chirp_range_hz: list[float], length_seconds: float, sampling_rate_hz: int
+    chirp_range_hz: list[float],
+    length_seconds: float,
+    sampling_rate_hz: int,
+    phase_offset: float = 0.0,
 ) -> tuple[NDArray[np.float64], float]:
     """Generate a synchronized exponential chirp according to [1].
 
@@ -15,6 +18,10 @@ def _sync_log_chirp(
         Length of the chirp. This will not be the exact length due to the
         necessity of ensuring that the last frequency in the chirp with
         `phase=0` ends.
+    sampling_rate_hz : int
+        Sampling rate in Hz.
+    phase_offset : float, optional
+        Offset in radians for the phase of the sine. Default: 0.
 
     Returns
     -------
@@ -41,7 +48,7 @@ def _sync_log_chirp(
     # Sweep-rate
     L = int(0.5 + T * f1 / f2f1) / f1
     t = np.linspace(0.0, T, int(T * sampling_rate_hz + 0.5))
-    return np.sin(2.0 * np.pi * f1 * L * (np.exp(t / L) - 1.0)), T
+    return np.sin(2.0 * np.pi * f1 * L * (np.exp(t / L) - 1.0) + phase_offset), T
 
 
 if __name__ == "__main__":
diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index a8414e2..9d5e6e8 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -234,7 +234,9 @@ def chirp(
                 2 * np.pi * range_hz[0] / np.log(k) * (k**t - 1) + phase_offset
             )
         case ChirpType.SyncLog:
-            chirp_td, T = _sync_log_chirp(range_hz, length_seconds, sampling_rate_hz)
+            chirp_td, T = _sync_log_chirp(
+                range_hz, length_seconds, sampling_rate_hz, phase_offset
+            )
         case _:
             raise ValueError("Unsupported chirp type")
 
-- 
2.43.0


From 75998f6bff53abc91b61c22394f68db4e8f552d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 53/67] fix: keep the empty state of a zero-order FIR filter
 when filtering block-wise

---
 dsptoolbox/classes/filter_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 65162d0..97785df 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -496,7 +496,7 @@ def _lfilter_fir(
     # Use zi's and take zf's
     if zi is not None:
         y[: zi.shape[0], :] += zi
-        zf = y[-zi.shape[0] :, :]
+        zf = y[y.shape[0] - zi.shape[0] :, :]
 
     # Trim output
     y = y[: x.shape[0], :]
-- 
2.43.0


From 8a8cfff9f697559365ad8130cc9cdfc97aa53358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 54/67] fix: matched_biquad with BandpassSkirt applies constant
 skirt gain

---
 dsptoolbox/filterbanks/filterbanks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 321ae7c..426c229 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -621,7 +621,10 @@ def matched_biquad(
         case BiquadEqType.BandpassPeak:
             ba = _get_matched_bandpass_eq(freq_hz, gain_db, q, sampling_rate_hz)
         case BiquadEqType.BandpassSkirt:
-            ba = _get_matched_bandpass_eq(freq_hz, gain_db, q, sampling_rate_hz)
+            # Constant skirt gain: the peak gain is q
+            ba = _get_matched_bandpass_eq(
+                freq_hz, gain_db + 20.0 * np.log10(q), q, sampling_rate_hz
+            )
         case BiquadEqType.Lowshelf:
             ba = _get_matched_shelving_eq(freq_hz, gain_db, sampling_rate_hz, True)
         case BiquadEqType.Highshelf:
-- 
2.43.0


From d62e34bc94a696aff0b1fb8a87274f3a75add1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 55/67] fix: accept the input format of
 convert_sample_representation in any case

---
 dsptoolbox/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 597731a..4929000 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -408,7 +408,7 @@ def convert_sample_representation(
         "u24",
         "u32",
     ]
-    input_format.lower()
+    input_format = input_format.lower()
     output_format = output_format.lower()
     assert (
         output_format in valid_formats and input_format in valid_formats
-- 
2.43.0


From db03dcef6de9b0e386054a93a929496f91cbde42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 56/67] fix: keep the settings of the bands in
 MultiBandSignal.get_all_bands

---
 dsptoolbox/classes/multibandsignal.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 39ca444..c253734 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -308,10 +308,6 @@ class MultiBandSignal:
             else [b.length_samples for b in self.bands]
         )
 
-    def __get_type_of_signal_bands(self):
-        """Return type of saved bands (either Signal or ImpulseResponse)."""
-        return type(self.bands[0])
-
     def __len__(self):
         return len(self.bands)
 
@@ -512,9 +508,7 @@ class MultiBandSignal:
                         self.bands[n].time_data[:, channel]
                         + self.bands[n].time_data_imaginary[:, channel] * 1j
                     )
-            return self.__get_type_of_signal_bands()(
-                None, new_time_data, self.sampling_rate_hz
-            )
+            return self.bands[0].copy_with_new_time_data(new_time_data)
 
         new_time_data = []
         sr = []
-- 
2.43.0


From 54c5d59b8168d46b78bcb4be6dded07243f1218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 57/67] fix: keep the settings of the signal in
 StateVariableFilter.filter_signal

---
 dsptoolbox/classes/sv_filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index 104608a..f5d86e0 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -138,10 +138,7 @@ class StateVariableFilter(RealtimeFilter):
         ), "Sampling rates do not match"
         td = self.__process_vector(signal.time_data)
         return MultiBandSignal(
-            [
-                type(signal)(None, td[:, i, :], sampling_rate_hz=self.sampling_rate_hz)
-                for i in range(4)
-            ]
+            [signal.copy_with_new_time_data(td[:, i, :]) for i in range(4)]
         )
 
     def get_ir(self, length_samples: int) -> MultiBandSignal:
-- 
2.43.0


From 69030c6738a6f2d333990f33904a8e90d6a3a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 58/67] fix: frequency vector of the spectrogram with a
 zero-padded FFT

---
 dsptoolbox/standard/_spectral_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 0147016..7a5abe7 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -278,7 +278,7 @@ def _stft(
         stft *= factor
 
     time_s = np.linspace(0, len(x) / fs_hz, stft.shape[1])
-    freqs_hz = np.fft.rfftfreq(len(window), 1 / fs_hz)
+    freqs_hz = np.fft.rfftfreq(fft_length_samples, 1 / fs_hz)
     return time_s, freqs_hz, stft
 
 
-- 
2.43.0


From baaab66b5c018a5ae590e7508b68ea2418469323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 59/67] fix: sampling rate of the original signal in istft

---
 dsptoolbox/transforms/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 309389c..9f058cc 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -526,6 +526,7 @@ def istft(
             parameters is None
         ), "A signal was passed. No parameters dictionary should be passed"
         parameters = original_signal._spectrogram_parameters.copy()
+        sampling_rate_hz = original_signal.sampling_rate_hz
     elif parameters is not None:
         pass
     else:
-- 
2.43.0


From 47873f8643084cf90f9f6cbfe9acbbbf603ea8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:07 +0000
Subject: [PATCH 60/67] fix: undo the correction of DC and Nyquist bins in
 istft

---
 dsptoolbox/transforms/transforms.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 9f058cc..79cd26a 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -551,6 +551,16 @@ def istft(
         parameters["window_length_samples"],
     )
 
+    if parameters["scaling"].has_physical_units():
+        # Undo the correction of the bins that have no mirrored counterpart
+        stft = stft.copy()
+        stft[0, ...] *= 2**0.5
+        fft_length = (
+            parameters["fft_length_samples"] or parameters["window_length_samples"]
+        )
+        if fft_length % 2 == 0:
+            stft[-1, ...] *= 2**0.5
+
     td_framed = np.fft.irfft(
         stft,
         axis=0,
-- 
2.43.0


From 85853caa5f56e6c934010adeab6763ace8d83e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 61/67] fix: process a sample with realtime FIR and IIR filters
 of order zero

---
 dsptoolbox/classes/fir_filter_realtime.py | 2 ++
 dsptoolbox/classes/iir_filter_realtime.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 09d2220..0d7e41c 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -59,6 +59,8 @@ class FIRFilter(RealtimeFilter):
     def process_sample(self, x: float, channel: int):
         """Process a sample."""
         y = self.b[0] * x
+        if self.order == 0:
+            return y
 
         write_index = self.current_state_ind[channel]
         for i in range(self.order):
diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index 59298d3..4196c9c 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -57,6 +57,9 @@ class IIRFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
+        if self.order == 0:
+            return self.b[0] * x
+
         y = self.b[0] * x + self.state[0, channel]
         for i in range(self.order - 1):
             self.state[i, channel] = (
-- 
2.43.0


From edb70d33da7c8aae246865115e8e7cf5a444fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 62/67] fix: reject end_time_s = 0 in trim_with_time_selection

---
 dsptoolbox/standard/pad_trim_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index 67fb840..4e795c1 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -221,7 +221,7 @@ def trim_with_time_selection(
         else:
             start_sample = 0
 
-        if end_time_s:
+        if end_time_s is not None:
             assert end_time_s > 0.0, "End time must be greater than 0"
             assert (
                 end_time_s <= signal.length_seconds
-- 
2.43.0


From ce294199e2ea7a6787f853584679a6c36b603622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:56 +0000
Subject: [PATCH 63/67] fix: linear phase in ir_to_filter uses the minimum
 group delay instead of the signal length

---
 dsptoolbox/transfer_functions/transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index e714abb..e9b9448 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1234,7 +1234,7 @@ def ir_to_filter(
         )
     elif phase_mode == "lin":
         signal = lin_phase_from_mag(
-            Spectrum.from_signal(signal), signal.sampling_rate_hz, len(signal)
+            Spectrum.from_signal(signal), signal.sampling_rate_hz
         )
 
     filters = []
-- 
2.43.0


From ea47a7357ba41d707f98945cf6cf680d0f7313d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 64/67] fix: interpolation of spectra: complex output and
 values outside the saved range

---
 dsptoolbox/classes/spectrum.py | 58 +++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 5083c8c..3c4fb24 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -566,6 +566,13 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             assert not self.is_magnitude, "Complex output is not supported"
 
+        # A complex output cannot be obtained in a real-valued domain
+        domain = (
+            InterpolationDomain.MagnitudePhase
+            if output_type == SpectrumType.Complex and not self.__int_domain.is_complex()
+            else self.__int_domain
+        )
+
         inds_outside_left = requested_frequency < self.frequency_vector_hz[0]
         inds_outside_right = requested_frequency > self.frequency_vector_hz[-1]
         if self.__int_edges == InterpolationEdgeHandling.Error:
@@ -575,20 +582,20 @@ class Spectrum(MultichannelData):
             )
 
         # Input for interpolation depending on domain
-        if self.__int_domain == InterpolationDomain.Power:
+        if domain == InterpolationDomain.Power:
             if self.is_magnitude:
                 interp_data = self.spectral_data**2.0
             else:
                 interp_data = np.abs(self.spectral_data) ** 2.0
-        elif self.__int_domain == InterpolationDomain.Magnitude:
+        elif domain == InterpolationDomain.Magnitude:
             if self.is_magnitude:
                 interp_data = self.spectral_data
             else:
                 interp_data = np.abs(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.Complex:
+        elif domain == InterpolationDomain.Complex:
             interp_data = np.real(self.spectral_data)
             interp_data_imag = np.imag(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+        elif domain == InterpolationDomain.MagnitudePhase:
             interp_data = np.abs(self.spectral_data)
             interp_data_imag = np.unwrap(np.angle(self.spectral_data), axis=0)
 
@@ -600,6 +607,12 @@ class Spectrum(MultichannelData):
         else:  # "extend"
             left_val = interp_data[0, ...]
             right_val = interp_data[-1, ...]
+            if domain == InterpolationDomain.Complex:
+                left_val = left_val + 1j * interp_data_imag[0, ...]
+                right_val = right_val + 1j * interp_data_imag[-1, ...]
+            elif domain == InterpolationDomain.MagnitudePhase:
+                left_val = left_val * np.exp(1j * interp_data_imag[0, ...])
+                right_val = right_val * np.exp(1j * interp_data_imag[-1, ...])
 
         # Interpolation and filling edges
         if self.__int_scheme != InterpolationScheme.Linear:
@@ -611,74 +624,67 @@ class Spectrum(MultichannelData):
             output = func(self.frequency_vector_hz, interp_data, axis=0)(
                 requested_frequency
             )
-            if self.__int_domain == InterpolationDomain.Complex:
+            if domain == InterpolationDomain.Complex:
                 output = output + 1j * func(
                     self.frequency_vector_hz, interp_data_imag, axis=0
                 )(requested_frequency)
-            elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+            elif domain == InterpolationDomain.MagnitudePhase:
                 output = output * np.exp(
                     1j
                     * func(self.frequency_vector_hz, interp_data_imag, axis=0)(
                         requested_frequency
                     )
                 )
-
-            if len(inds_outside_left) > 0:
-                output[inds_outside_left, :] = left_val
-            if len(inds_outside_right) > 0:
-                output[inds_outside_right, :] = right_val
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
-                dtype=(np.complex128 if self.__int_domain.is_complex() else np.float64),
+                dtype=(np.complex128 if domain.is_complex() else np.float64),
             )
             for ch in range(output.shape[1]):
                 output[:, ch] = np.interp(
                     requested_frequency,
                     self.frequency_vector_hz,
                     interp_data[:, ch],
-                    left=left_val,
-                    right=right_val,
                 )
                 # Complex handling
-                if self.__int_domain == InterpolationDomain.Complex:
+                if domain == InterpolationDomain.Complex:
                     output[:, ch] += 1j * np.interp(
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
-                        left=left_val,
-                        right=right_val,
                     )
-                elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+                elif domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
                         1j
                         * np.interp(
                             requested_frequency,
                             self.frequency_vector_hz,
                             interp_data_imag[:, ch],
-                            left=left_val,
-                            right=right_val,
                         )
                     )
 
+        # Values outside the saved range
+        output[inds_outside_left, :] = left_val
+        output[inds_outside_right, :] = right_val
+
         # Output type
         if output_type == SpectrumType.Complex:
             return output
         elif output_type == SpectrumType.Db:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return to_db(np.abs(output), True)
-            return to_db(output, self.__int_domain.is_linear())
+            return to_db(output, domain.is_linear())
         elif output_type == SpectrumType.Power:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output) ** 2.0
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output**2.0
             else:  # "power"
                 return output
         elif output_type == SpectrumType.Magnitude:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output)
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output
             else:  # "power"
                 return output**0.5
-- 
2.43.0


From 3a1bc40fa4e02dcff6aa048c018a2e8800993987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 65/67] fix: smoothing of spectra with irregular frequency
 vector

---
 dsptoolbox/classes/spectrum.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3c4fb24..8efa5cc 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -848,15 +848,17 @@ class Spectrum(MultichannelData):
         ):
             data = self.spectral_data
         else:  # Other: map to linear and interpolate
+            linear_frequency_vector_hz = np.linspace(
+                self.frequency_vector_hz[0],
+                self.frequency_vector_hz[-1],
+                int(self.frequency_vector_hz[-1] - self.frequency_vector_hz[0]) + 1,
+                endpoint=True,
+            )
             data = self.get_interpolated_spectrum(
-                np.linspace(
-                    self.frequency_vector_hz[0],
-                    self.frequency_vector_hz[-1],
-                    self.frequency_vector_hz[-1] - self.frequency_vector_hz[0],
-                    endpoint=True,
-                ),
+                linear_frequency_vector_hz,
                 (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
             )
+            self.frequency_vector_hz = linear_frequency_vector_hz
 
         if self.is_magnitude:
             self.spectral_data = fractional_octave_smoothing(
-- 
2.43.0


From d271a9dcb5dc6cd683799ca3654b3f5fdec2a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:05 +0000
Subject: [PATCH 66/67] fix: play_and_record with a given duration

---
 dsptoolbox/audio_io/audio_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index ef12038..d83321c 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -259,7 +259,7 @@ def play_and_record(
     #
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = duration_seconds * signal.sampling_rate_hz
+        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
-- 
2.43.0


From d47a631dda96c1fe5b3f6e7bc3f40e3d4c341ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 67/67] fix: activity_detector compares the level with the
 right samples

---
 dsptoolbox/standard/_standard_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 837b65b..dc07167 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -365,9 +365,9 @@ def _indices_above_threshold_dbfs(
 
     momentary_gain = np.zeros(len(time_power), dtype=np.float64)
     for i in np.arange(1, len(time_power)):
-        if momentary_gain[i] > time_power[i - 1]:
+        if time_power[i] > momentary_gain[i - 1]:
             coeff = attack_smoothing_coeff
-        elif momentary_gain[i] < time_power[i - 1]:
+        elif time_power[i] < momentary_gain[i - 1]:
             coeff = release_smoothing_coeff
         else:
             coeff = 0
-- 
2.43.0

