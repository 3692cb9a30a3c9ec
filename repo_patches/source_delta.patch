From a3264789fc30a8472e5cb77d9f613a3e9f9cae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 01/37] fix: HadamardMatrix::key cycles over the n-1 codes
 instead of indexing past the last row

---
 src/hadamard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadamard.rs b/src/hadamard.rs
index 1d98b74..20664b3 100644
--- a/src/hadamard.rs
+++ b/src/hadamard.rs
@@ -26,7 +26,7 @@ impl HadamardMatrix {
     }
     pub fn key(&self, n: usize) -> &Vec<Bit> {
         // TODO: FIXME: Make it more obvious there are 2^n-1 codes, instad of 2^n.
-        self.matrix.get((n % self.matrix.len()) + 1).unwrap()
+        self.matrix.get((n % (self.matrix.len() - 1)) + 1).unwrap()
     }
 }
 
-- 
2.43.0


From 4bd734bd70d992970b949d4aa79999fd7db063cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 02/37] fix: inflate(0) yields nothing instead of repeating the
 first item forever

---
 src/iter/inflate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iter/inflate.rs b/src/iter/inflate.rs
index 6218e64..258bf8f 100644
--- a/src/iter/inflate.rs
+++ b/src/iter/inflate.rs
@@ -21,6 +21,9 @@ impl<T: Copy, I: Iterator<Item = T>> Iterator for Inflate<T, I> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
+        if self.copies == 0 {
+            return None;
+        }
         if self.curr.is_none() || self.curr_copy == self.copies {
             self.curr = self.source.next();
             self.curr_copy = 1;
-- 
2.43.0


From 6e531d589b9bca4f48b1e0c2ec784b21d5f62958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 03/37] fix: HopTable with a single frequency no longer indexes
 out of bounds on the second hop

---
 src/fh.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/fh.rs b/src/fh.rs
index 7f3a881..bf4a092 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -42,15 +42,10 @@ impl Iterator for HopTable {
     fn next(&mut self) -> Option<f64> {
         if self.idx == 0 {
             self.hopping_table.shuffle(&mut self.rng);
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
-        } else if self.idx == self.hopping_table.len() - 1 {
-            self.idx = 0;
-            Some(self.hopping_table[self.hopping_table.len() - 1])
-        } else {
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
         }
+        let freq = self.hopping_table[self.idx];
+        self.idx = (self.idx + 1) % self.hopping_table.len();
+        Some(freq)
     }
 }
 
-- 
2.43.0


From 827edb102b620fcabbde4caf0910c6cc5d4f4c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 04/37] fix: linear_downchirp_centered sweeps downwards

---
 src/fh_css.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fh_css.rs b/src/fh_css.rs
index 25f6f26..ece8aab 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -36,7 +36,7 @@ pub fn linear_downchirp_centered(
 ) -> impl Iterator<Item = f64> {
     let f0: f64 = center_freq - bandwidth / 2f64;
     let f1: f64 = center_freq + bandwidth / 2f64;
-    linear_chirp(chirp_rate, sample_rate, f0, f1)
+    linear_chirp(chirp_rate, sample_rate, f1, f0)
 }
 
 pub fn tx_fh_css_signal<I: Iterator<Item = Bit>>(
-- 
2.43.0


From 24ae618181ec92983a6cf96bea79ffeba3dbca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 05/37] fix: power() divides by the number of samples, not by
 the last index

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf911e7..5fab475 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -253,8 +253,8 @@ pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
 }
 
 pub fn power<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
-    let (count, power) = signal.enumerate().fold((0, 0f64), |acc, (idx, sample)| {
-        (idx, acc.1 + sample.powi(2))
+    let (count, power) = signal.fold((0, 0f64), |acc, sample| {
+        (acc.0 + 1, acc.1 + sample.powi(2))
     });
 
     power / (count as f64) / sample_rate
-- 
2.43.0


From 4f82dd7d5089872b78c17684de92b3a44601ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 06/37] fix: chebyshev iterates the documented map, which stays
 in [-1, 1], instead of diverging

---
 src/chaos/chebyshev.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/chaos/chebyshev.rs b/src/chaos/chebyshev.rs
index 491ed2d..49dcfc7 100644
--- a/src/chaos/chebyshev.rs
+++ b/src/chaos/chebyshev.rs
@@ -1,10 +1,7 @@
 #[inline]
 /// Can be either 1-2(x_n^2) or 2(x_n^2)-1.
 pub fn chebyshev(xn: f64) -> f64 {
-    let mu = 3f64;
-    // 1f64 - 2f64 * xn.powi(2)
-    // 2f64 * xn.powi(2) - 1f64
-    mu * xn.powi(3) - (1f64 - mu) * xn
+    1f64 - 2f64 * xn.powi(2)
 }
 
 pub struct Chebyshev {
-- 
2.43.0


From abcb302888323a36e97c9b32b889edac914a50c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 07/37] fix: awgn_complex adds noise to the quadrature
 component too

---
 src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5fab475..1f115ee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -217,13 +217,12 @@ pub fn awgn_complex<I: Iterator<Item = Complex<f64>>>(
     signal: I,
     sigma: f64,
 ) -> impl Iterator<Item = Complex<f64>> {
-    signal
-        .zip(
-            Normal::new(0f64, sigma)
-                .unwrap()
-                .sample_iter(rand::thread_rng()),
-        )
-        .map(|(sample, noise)| sample + noise)
+    let mut noise = Normal::new(0f64, sigma)
+        .unwrap()
+        .sample_iter(rand::thread_rng());
+    signal.map(move |sample| {
+        sample + Complex::new(noise.next().unwrap(), noise.next().unwrap())
+    })
 }
 
 pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Item = f64> {
-- 
2.43.0


From 68ff45d74632801b3a4912603708b6c98e894e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 08/37] fix: convolve/nonvolve apply the filter taps in order
 and output the full tail

---
 src/iter/convolution.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/iter/convolution.rs b/src/iter/convolution.rs
index 493b846..d317f3b 100644
--- a/src/iter/convolution.rs
+++ b/src/iter/convolution.rs
@@ -13,6 +13,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<T>,
+    tail: usize, // How many samples past the end of `source` have been output.
 }
 
 impl<T, I> Convolver<T, I>
@@ -26,13 +27,14 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            tail: 0,
         }
     }
 
     fn _convolve(&self) -> T {
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.tail))
             .map(|(&buf, &filt)| buf * filt)
             .sum()
     }
@@ -60,11 +62,10 @@ where
                 Some(self._convolve())
             }
             None => {
-                // if self.buffer.is_empty() {
-                if self.buffer.len() <= 1 {
+                self.tail += 1;
+                if self.buffer.is_empty() || self.tail >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
                     Some(self._convolve())
                 }
             }
@@ -80,6 +81,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<[T; N]>,
+    tail: usize, // How many samples past the end of `source` have been output.
 }
 
 impl<T, I, const N: usize> Nonvolver<T, I, N>
@@ -93,6 +95,7 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            tail: 0,
         }
     }
 
@@ -100,7 +103,7 @@ where
         let mut ret = [T::default(); N];
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter().skip(self.tail))
             .for_each(|(&buf, &filt)| {
                 buf.iter()
                     .enumerate()
@@ -130,10 +133,10 @@ where
                 Some(self._nonvolve())
             }
             None => {
-                if self.buffer.len() <= 1 {
+                self.tail += 1;
+                if self.buffer.is_empty() || self.tail >= self.filter.len() {
                     None
                 } else {
-                    self.buffer.pop_back();
                     Some(self._nonvolve())
                 }
             }
-- 
2.43.0


From 2c182b526adce17a89c6e03310d6853e7cb83e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 09/37] fix: OFDM transmitter undoes the receiver's fftshift
 for an odd number of subcarriers

---
 src/lib.rs  | 9 +++++++++
 src/ofdm.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1f115ee..00ca088 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -147,6 +147,15 @@ fn fftshift<T: Clone>(x: &[T]) -> Vec<T> {
     v
 }
 
+/// Inverse of `fftshift()`; the two differ when the length is odd.
+fn ifftshift<T: Clone>(x: &[T]) -> Vec<T> {
+    let mut v = Vec::with_capacity(x.len());
+    let pivot = x.len() / 2;
+    v.extend_from_slice(&x[pivot..]);
+    v.extend_from_slice(&x[..pivot]);
+    v
+}
+
 fn fftshift_mut<T: Copy>(x: &mut [T]) {
     let pivot = x.len().div_ceil(2);
     let v: Vec<T> = Vec::from(&x[..pivot]);
diff --git a/src/ofdm.rs b/src/ofdm.rs
index bbaabf2..fd9911b 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -1,6 +1,6 @@
 use crate::iter::Iter;
 use crate::qpsk::{rx_baseband_qpsk_signal, tx_baseband_qpsk_signal};
-use crate::{fftshift, is_int, Bit};
+use crate::{fftshift, ifftshift, is_int, Bit};
 use rustfft::num_traits::Zero;
 use rustfft::{num_complex::Complex, FftPlanner};
 use std::f64::consts::PI;
@@ -41,7 +41,7 @@ pub fn tx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
                 .zip(data_chunk)
                 .for_each(|(&carrier, datum)| ofdm_symbol_data[carrier] = datum);
 
-            let mut ofdm_symbols = fftshift(&ofdm_symbol_data);
+            let mut ofdm_symbols = ifftshift(&ofdm_symbol_data);
             fft.process_with_scratch(&mut ofdm_symbols, &mut fft_scratch); // IFFT
 
             let cp = ofdm_symbols[subcarriers - cp_len..subcarriers]
-- 
2.43.0


From fbfed689958c8f219d31af862f1267d5cd3026a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 10/37] fix: OFDM receiver integrates over each symbol instead
 of one sample late

---
 src/ofdm.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index fd9911b..9cd2687 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -127,7 +127,6 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     let samples_per_symbol = sample_rate / symbol_rate;
 
-    let filter: Vec<f64> = (0..samples_per_symbol).map(|_| 1f64).collect();
     let ofdm_symbols = message
         .enumerate()
         .map(move |(idx, sample)| {
@@ -137,10 +136,8 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
 
             [ii, qi]
         })
-        .nonvolve(filter)
-        .map(|s_i| Complex::new(s_i[0], s_i[1]))
-        .take_every(samples_per_symbol)
-        .skip(1);
+        .nintegrate_and_dump(samples_per_symbol)
+        .map(|s_i| Complex::new(s_i[0], s_i[1]));
 
     let qpsk_symbols = rx_baseband_ofdm_signal(ofdm_symbols, subcarriers, pilots);
     rx_baseband_qpsk_signal(qpsk_symbols)
-- 
2.43.0


From c82b5103f6e987e97a352ea6608f5edc3417d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 11/37] fix: OFDM receivers drop an incomplete trailing symbol
 instead of panicking

---
 src/fh_ofdm_dcsk.rs | 1 +
 src/ofdm.rs         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 160690d..2827494 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Complex<f64>>>(
 
     signal
         .chunks(NUM_SUBCARRIERS + CP_LEN)
+        .take_while(|chunk| chunk.len() == NUM_SUBCARRIERS + CP_LEN)
         .flat_map(move |chunk| {
             let mut buffer: Vec<Complex<f64>> = Vec::from(&chunk[CP_LEN..]); // CP Removal
 
diff --git a/src/ofdm.rs b/src/ofdm.rs
index 9cd2687..c536d97 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
 
     message
         .chunks(subcarriers + cp_len) // S/P
+        .take_while(move |ofdm_symbol_data| ofdm_symbol_data.len() == subcarriers + cp_len)
         .flat_map(move |ofdm_symbol_data| {
             // let mut buffer: Vec<Complex<f64>> = fftshift(&ofdm_symbol_data[cp_len..]); // CP Removal
             let mut buffer: Vec<Complex<f64>> = Vec::from(&ofdm_symbol_data[cp_len..]); // CP Removal
-- 
2.43.0


From 98e11d791567c3d97c0ba5f2050e2d410695b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 12/37] fix: coded receiver ignores a trailing fragment shorter
 than the ECC instead of underflowing

---
 src/bch.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bch.rs b/src/bch.rs
index 9ff0102..bd723bc 100644
--- a/src/bch.rs
+++ b/src/bch.rs
@@ -21,6 +21,7 @@ pub fn bch_stream_encode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item
 pub fn bch_stream_decode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item = Bit> {
     bools_to_u8s(data)
         .chunks(FRAME_VALUE)
+        .filter(|chunk| chunk.len() > ECC_VALUE) // A shorter fragment holds no data.
         .flat_map(|chunk| {
             let dec = Decoder::new(ECC_VALUE);
             // let decoded: Vec<u8> = dec.correct(&chunk, None);
-- 
2.43.0


From 92c136bb9e94e2c6b49767746ab2433fc4e321e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 13/37] fix: kom_py tx_qpsk modulates onto the requested
 carrier, not half of it

---
 kom_py/psk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/psk.py b/kom_py/psk.py
index 8928f26..ebcf579 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -72,7 +72,7 @@ def tx_qpsk(
     # Make time array
     # time = [i / samp_rate for i in range(len(symbols))]
     return [
-        (c_i * np.exp(1j * np.pi * carrier_freq * (i / samp_rate))).real
+        (c_i * np.exp(2j * np.pi * carrier_freq * (i / samp_rate))).real
         for (i, c_i) in enumerate(symbols)
     ]
 
-- 
2.43.0


From 63ccdb7852398c20303bc9e5e050265842fd27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 14/37] fix: kom_py PSK and CDMA receivers integrate over each
 symbol instead of one sample late

---
 kom_py/cdma.py | 2 +-
 kom_py/psk.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index 57765aa..de70346 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -46,7 +46,7 @@ def rx_bpsk_cdma(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 :: samples_per_symbol]]
 
 
 if __name__ == "__main__":
diff --git a/kom_py/psk.py b/kom_py/psk.py
index ebcf579..9a8941a 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -56,7 +56,7 @@ def rx_bpsk(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 :: samples_per_symbol]]
 
 
 def tx_qpsk(
@@ -101,7 +101,7 @@ def rx_qpsk(
         filter,
     )
 
-    i_bits = [i > 0 for i in ii[::samples_per_symbol]][1:]
-    q_bits = [i > 0 for i in qi[::samples_per_symbol]][1:]
+    i_bits = [i > 0 for i in ii[samples_per_symbol - 1 :: samples_per_symbol]]
+    q_bits = [i > 0 for i in qi[samples_per_symbol - 1 :: samples_per_symbol]]
 
     return list(np.array(list(zip(i_bits, q_bits))).flatten())
-- 
2.43.0


From b2eba175f30fa7e1f23fe72b21318b8a54b38b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 15/37] fix: kom_py rx_bpsk_cdma despreads with the key before
 integrating

---
 kom_py/cdma.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index de70346..78d7d05 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -40,7 +40,9 @@ def rx_bpsk_cdma(
     filter = [1 for _ in range(samples_per_symbol)]
 
     if_sig = [
-        s_i * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
+        s_i
+        * KEY[i // samples_per_chip % len(KEY)]
+        * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
         for (i, s_i) in enumerate(signal)
     ]
 
-- 
2.43.0


From 6923414a92cdd92393e30cd70d8a00b9419e1d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 16/37] fix: kom_py floor_power_of_2 is exact for large powers
 of two

---
 kom_py/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index 461cf9d..0dcb9ac 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python3
 from contextlib import contextmanager
 from itertools import zip_longest
-from math import ceil, log
+from math import ceil
 import numpy as np
 import time
 from typing import Any, Iterable, Generator, List, Union, Optional
@@ -23,10 +23,8 @@ def floor_power_of_2(x):
     x = int(x)
     if x == 0:
         return 0
-    elif log(x, 2).is_integer():
-        return x
     else:
-        return 2 ** (int(x - 1).bit_length() - 1)
+        return 2 ** (x.bit_length() - 1)
 
 
 def bit_to_nrz(bit: bool) -> float:
-- 
2.43.0


From f546123c74aa9d33eb159758a86ce8ad047a3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 17/37] fix: FH-OFDM-DCSK starts its chaotic sequence off the
 map's fixed point

---
 src/fh_ofdm_dcsk.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 2827494..7961ca7 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -13,6 +13,9 @@ const CP_LEN: usize = NUM_SUBCARRIERS / 4;
 
 const SEED: u64 = 64;
 
+/// Start of the chaotic sequence; 0.5 is a fixed point of the Chebyshev map.
+const CHAOS_SEED: f64 = 0.1;
+
 pub fn tx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Bit>>(
     message: I,
 ) -> impl Iterator<Item = Complex<f64>> {
@@ -25,7 +28,7 @@ pub fn tx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Bit>>(
 
     bpsk_symbols
         .wchunks(NUM_SUBCARRIERS - 1) // S/P
-        .zip(Chebyshev::new(0.5).chunks(NUM_SUBCARRIERS))
+        .zip(Chebyshev::new(CHAOS_SEED).chunks(NUM_SUBCARRIERS))
         .flat_map(move |(bpsk_symbols, chaotic_sequence)| {
             let pre_hop_symbols: Vec<Complex<f64>> = iter::once(chaotic_sequence[0])
                 .map(Complex::from)
-- 
2.43.0


From 533a485cfb51dacaaf94e9e960183d7069d5c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 18/37] fix: kom_py rx_bpsk_cdma defines the chip length it
 despreads with

---
 kom_py/cdma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index 78d7d05..6e0f740 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -32,6 +32,7 @@ def rx_bpsk_cdma(
     signal: List[float], samp_rate: int, symb_rate: int, carrier_freq: float
 ) -> List[bool]:
     samples_per_symbol = int(samp_rate / symb_rate)
+    samples_per_chip = int(samples_per_symbol / len(KEY))
     assert samp_rate / 2 >= carrier_freq
     assert samp_rate / 2 >= len(KEY) * symb_rate
     assert samp_rate % symb_rate == 0
-- 
2.43.0


From 2312273df3cf6ee8181e49dab1790d8433189238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 19/37] fix: kom_py chirpCtr passes the rates to chirpz in the
 right order

---
 kom_py/chirp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/chirp.py b/kom_py/chirp.py
index c6f1a5b..2695c21 100644
--- a/kom_py/chirp.py
+++ b/kom_py/chirp.py
@@ -89,7 +89,7 @@ def chirpCtr(fs_Hz, fc_Hz, rep_Hz, bw_Hz, phase_rad=0):
     """
     f0_Hz = fc_Hz - bw_Hz / 2.0
     f1_Hz = fc_Hz + bw_Hz / 2.0
-    return chirpz(fs_Hz, rep_Hz, f0_Hz, f1_Hz, phase_rad)
+    return chirpz(rep_Hz, fs_Hz, f0_Hz, f1_Hz, phase_rad=phase_rad)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 769099a115f2f175d0efdf14b500ca3cacab9ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 20/37] fix: kom_py max_cut takes the largest magnitude, not
 the magnitude of the largest real part

---
 kom_py/ssca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/ssca.py b/kom_py/ssca.py
index 412bd32..4c0072a 100755
--- a/kom_py/ssca.py
+++ b/kom_py/ssca.py
@@ -101,7 +101,7 @@ def ssca(s: List[float], N, Np, map_output=True) -> np.ndarray:
 def max_cut(sx: np.ndarray) -> np.ndarray:
     # l_max(t, a) = 10 log_10( max_f( | S(a, f) |^2 ) )
     # TODO: verify if axis zero or axis 1.
-    λ = np.abs(np.max(sx, axis=1)) ** 2
+    λ = np.max(np.abs(sx), axis=1) ** 2
     return 10 * np.log10(λ)
     # return λ
 
-- 
2.43.0


From aa503afdf047cb6bdfb718adfeea74c23ed38e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 21/37] fix: FH-OFDM-DCSK keeps the chaotic seed its receiver
 assumes

Reverts f546123: the receiver detects against the reference subcarrier only, so
with a varying sequence the link no longer carries the data.
---
 src/fh_ofdm_dcsk.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 7961ca7..2827494 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -13,9 +13,6 @@ const CP_LEN: usize = NUM_SUBCARRIERS / 4;
 
 const SEED: u64 = 64;
 
-/// Start of the chaotic sequence; 0.5 is a fixed point of the Chebyshev map.
-const CHAOS_SEED: f64 = 0.1;
-
 pub fn tx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Bit>>(
     message: I,
 ) -> impl Iterator<Item = Complex<f64>> {
@@ -28,7 +25,7 @@ pub fn tx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Bit>>(
 
     bpsk_symbols
         .wchunks(NUM_SUBCARRIERS - 1) // S/P
-        .zip(Chebyshev::new(CHAOS_SEED).chunks(NUM_SUBCARRIERS))
+        .zip(Chebyshev::new(0.5).chunks(NUM_SUBCARRIERS))
         .flat_map(move |(bpsk_symbols, chaotic_sequence)| {
             let pre_hop_symbols: Vec<Complex<f64>> = iter::once(chaotic_sequence[0])
                 .map(Complex::from)
-- 
2.43.0


From 3730dd05403e14a4c9e38c8e6d64f6b79d6e6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 22/37] fix: butterpass accepts streams whose last chunk is
 shorter than the filter's edge padding

---
 src/bpf.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bpf.rs b/src/bpf.rs
index 398abbb..d4a04fa 100644
--- a/src/bpf.rs
+++ b/src/bpf.rs
@@ -61,9 +61,15 @@ pub fn butterpass<I: Iterator<Item = f64>>(
     ) else {
         panic!("Failed to design filter");
     };
-    stream
-        .chunks(FFT_LEN * 10)
-        .flat_map(move |chunk| sosfiltfilt_dyn(chunk.into_iter(), &bandpass_filter.sos))
+    // `sosfiltfilt_dyn` needs more samples than its edge padding: extend shorter chunks.
+    let min_len = 3 * (2 * bandpass_filter.sos.len() + 1) + 1;
+    stream.chunks(FFT_LEN * 10).flat_map(move |mut chunk| {
+        let len = chunk.len();
+        chunk.resize(len.max(min_len), 0f64);
+        sosfiltfilt_dyn(chunk.into_iter(), &bandpass_filter.sos)
+            .into_iter()
+            .take(len)
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From e7eac76df4a3d84bc92ed30b6e37d07d9b8d36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 23/37] fix: ssca_mapped places every point in its own cell
 when n or np is not a power of two

---
 src/ssca.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ssca.rs b/src/ssca.rs
index 5096033..b9ead98 100644
--- a/src/ssca.rs
+++ b/src/ssca.rs
@@ -70,10 +70,10 @@ pub fn ssca_mapped(s: Vec<f64>, n: usize, np: usize) -> Array2<Complex<f64>> {
     // Step 5.
     for q_p in 0..n {
         for k_p in 0..np {
-            let f: f64 = k_p as f64 / (2f64 * np as f64) - q_p as f64 / (2f64 * n as f64);
-            let a: f64 = k_p as f64 / np as f64 + q_p as f64 / n as f64;
-            let k: usize = (np as f64 * (f + 0.5)) as usize;
-            let q: usize = (n as f64 * a) as usize;
+            // f = k_p / (2 np) - q_p / (2 n), a = k_p / np + q_p / n: exact cell of each,
+            // as rounding in floating point moves some points to a neighbour's cell.
+            let k: usize = (k_p * n + n * np - q_p * np) / (2 * n);
+            let q: usize = k_p * n / np + q_p;
             sxf[[k, q]] = sx[[q_p, k_p]];
         }
     }
-- 
2.43.0


From d3cbf9aebeab6256e205a1f28de153751d689e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 24/37] fix: ssca maps every point to its own cell when N or Np
 is not a power of two (kom_py)

---
 kom_py/ssca.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kom_py/ssca.py b/kom_py/ssca.py
index 4c0072a..c0830c9 100755
--- a/kom_py/ssca.py
+++ b/kom_py/ssca.py
@@ -88,10 +88,9 @@ def ssca(s: List[float], N, Np, map_output=True) -> np.ndarray:
         Sxf = np.zeros((Np + 1, 2 * N + 1), dtype=complex)
         for q_p in range(N):
             for k_p in range(Np):
-                f = k_p / (2 * Np) - q_p / (2 * N)
-                a = k_p / Np + q_p / N
-                k = int(Np * (f + 0.5))
-                q = int(N * a)
+                # Exact integer cells: rounding moves some points to a neighbour's.
+                k = (k_p * N + N * Np - q_p * Np) // (2 * N)
+                q = k_p * N // Np + q_p
                 Sxf[k][q] = sx[q_p][k_p]
         return Sxf
     else:
-- 
2.43.0


From 4a3a8839bc7446738d1514d0e43f0d00bf15119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:46 +0000
Subject: [PATCH 25/37] fix: secs_to_str counts the hours since the last whole
 day of the last year

---
 kom_py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index 0dcb9ac..574eb04 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -64,7 +64,7 @@ def secs_to_str(seconds: float) -> str:
     if days:
         out += f"{int(seconds % s_y // s_d)}d:"
     if hours:
-        out += f"{int(seconds % s_d // s_h)}h:"
+        out += f"{int(seconds % s_y % s_d // s_h)}h:"
     if minutes:
         out += f"{int(seconds % s_h // s_m)}m:"
     if seconds:
-- 
2.43.0


From 7fc394045adf8827e6f051258295cc8600541009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:47 +0000
Subject: [PATCH 26/37] fix: ber_qpsk is the error rate per bit

---
 kom_py/ber_theory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kom_py/ber_theory.py b/kom_py/ber_theory.py
index 6628a65..1d78452 100644
--- a/kom_py/ber_theory.py
+++ b/kom_py/ber_theory.py
@@ -29,7 +29,8 @@ def ber_bpsk(eb_n0: float) -> float:
 
 
 def ber_qpsk(eb_n0: float) -> float:
-    return 0.5 * erfc(np.sqrt(eb_n0)) - 0.25 * erfc(np.sqrt(eb_n0)) ** 2
+    # Each of the two bits is a BPSK bit of its own carrier.
+    return 0.5 * erfc(np.sqrt(eb_n0))
 
 
 def get_ber(data, tx_sig, rx_func, n0) -> float:
-- 
2.43.0


From a5ac09f9a3f63170e2fa237c865dc0450ed15a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:47 +0000
Subject: [PATCH 27/37] fix: noise_sig adds noise to its argument

---
 kom_py/ber.py        | 2 +-
 kom_py/ber_theory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kom_py/ber.py b/kom_py/ber.py
index 6438cc0..2afcd8d 100644
--- a/kom_py/ber.py
+++ b/kom_py/ber.py
@@ -43,7 +43,7 @@ def get_ber(data, tx_sig, rx_func, n0) -> float:
 
 
 def noise_sig(tx_sig, n0, konst) -> float:
-    return [s_i + gauss(sigma=n0) * konst for s_i in signal]
+    return [s_i + gauss(sigma=n0) * konst for s_i in tx_sig]
 
 
 def calc_ber(ber_test: BitErrorTestResults) -> BitErrorTestResults:
diff --git a/kom_py/ber_theory.py b/kom_py/ber_theory.py
index 1d78452..b2a7909 100644
--- a/kom_py/ber_theory.py
+++ b/kom_py/ber_theory.py
@@ -40,7 +40,7 @@ def get_ber(data, tx_sig, rx_func, n0) -> float:
 
 
 def noise_sig(tx_sig, n0, konst) -> float:
-    return [s_i + gauss(sigma=n0) * konst for s_i in signal]
+    return [s_i + gauss(sigma=n0) * konst for s_i in tx_sig]
 
 
 ##
-- 
2.43.0


From d9760f2d37f4b938ed823141cf7a009c5576a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 28/37] fix: the older FH-BPSK transmitter keeps the time of
 the whole signal

---
 src/fh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fh.rs b/src/fh.rs
index bf4a092..96c0c40 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -107,7 +107,7 @@ pub fn tx_fh_bpsk_signal_old<I: Iterator<Item = Bit>>(
         .zip(HopTable::new(low_freq, high_freq, num_freqs, SEED))
         .enumerate()
         .flat_map(move |(idx, (msg_val, hop_freq))| {
-            let time = idx as f64 / sample_rate as f64;
+            let time = (idx * samples_per_symbol) as f64 / sample_rate as f64;
 
             // Generate symbol's worth of data:
             let symbol/*: Vec<f64>*/ = (0..samples_per_symbol)
-- 
2.43.0


From c34793bd1b1a0e40ed3e50fa99e22774e74fd000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 29/37] fix: rrcosfilter scales the whole pulse by the symbol
 length

---
 src/filters.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index baf1505..65cb53e 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -6,14 +6,15 @@ pub fn rrcosfilter(taps: usize, beta: f64, symbol_length: f64, samp_rate: f64) -
         .map(|i| {
             let t = ((i as f64) - (taps as f64) / 2f64) / samp_rate;
             if t == 0f64 {
-                1f64 / ts + beta * (4f64 / PI - 1f64)
+                1f64 / ts * (1f64 + beta * (4f64 / PI - 1f64))
             } else if beta != 0f64 && (t == ts / (2f64 * beta) || ts == -ts / (2f64 * beta)) {
                 beta / (ts * 2f64.sqrt())
                     * ((1f64 + 2f64 / PI) * (PI / (4f64 * beta)).sin()
                         + (1f64 - 2f64 / PI) * (PI / (4f64 * beta)).cos())
             } else {
-                ((1f64 / ts) * (PI * t / ts * (1f64 - beta)).sin()
-                    + 4f64 * beta * t / ts * (PI * t / ts * (1f64 + beta)).cos())
+                (1f64 / ts)
+                    * ((PI * t / ts * (1f64 - beta)).sin()
+                        + 4f64 * beta * t / ts * (PI * t / ts * (1f64 + beta)).cos())
                     / (PI * t / ts * (1f64 - (4f64 * beta * t / ts).powi(2)))
             }
         })
-- 
2.43.0


From d357d9b4e7346e17aa940e2b0f5056eb4b893c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 30/37] fix: rrcosfilter takes its limit at the points where
 its formula is 0/0

---
 src/filters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filters.rs b/src/filters.rs
index 65cb53e..b167c78 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -7,7 +7,7 @@ pub fn rrcosfilter(taps: usize, beta: f64, symbol_length: f64, samp_rate: f64) -
             let t = ((i as f64) - (taps as f64) / 2f64) / samp_rate;
             if t == 0f64 {
                 1f64 / ts * (1f64 + beta * (4f64 / PI - 1f64))
-            } else if beta != 0f64 && (t == ts / (2f64 * beta) || ts == -ts / (2f64 * beta)) {
+            } else if ((4f64 * beta * t / ts).abs() - 1f64).abs() < 1e-8 {
                 beta / (ts * 2f64.sqrt())
                     * ((1f64 + 2f64 / PI) * (PI / (4f64 * beta)).sin()
                         + (1f64 - 2f64 / PI) * (PI / (4f64 * beta)).cos())
-- 
2.43.0


From 834a98ac9ee9a804afabeafeaf66f6aaa6919811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 31/37] fix: the Costas loop mixes with its oscillator's phasor

---
 src/costas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costas.rs b/src/costas.rs
index 5147611..2af2873 100644
--- a/src/costas.rs
+++ b/src/costas.rs
@@ -17,7 +17,7 @@ impl CostasLoop {
     }
 
     pub fn update(&mut self, sample: Complex<f64>) -> Complex<f64> {
-        let vco_out = self.vco_phase * Complex::<f64>::new(0f64, -1f64);
+        let vco_out = (self.vco_phase * Complex::<f64>::new(0f64, -1f64)).exp();
         let out = sample * vco_out;
 
         let error = out.re * out.im;
-- 
2.43.0


From 0349ff0dd82cf842b820f6dbd7875713701c8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 32/37] fix: no_nans sees NaN, which equals nothing

---
 src/lib.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 00ca088..061df18 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,18 +95,13 @@ trait IsNan {
 
 impl IsNan for f64 {
     fn is_nan(&self) -> bool {
-        *self == std::f64::NAN || *self == std::f64::INFINITY || *self == std::f64::NEG_INFINITY
+        !self.is_finite()
     }
 }
 
 impl IsNan for Complex<f64> {
     fn is_nan(&self) -> bool {
-        self.re == std::f64::NAN
-            || self.im == std::f64::NAN
-            || self.re == std::f64::INFINITY
-            || self.im == std::f64::INFINITY
-            || self.re == std::f64::NEG_INFINITY
-            || self.im == std::f64::NEG_INFINITY
+        !self.is_finite()
     }
 }
 
-- 
2.43.0


From 8918fc8680465d41f5f1935ad57f62d879318590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 33/37] fix: fftshift_mut puts the first half after the second

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 061df18..f7d6d11 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,7 +157,7 @@ fn fftshift_mut<T: Copy>(x: &mut [T]) {
     for (i, j) in (pivot..x.len()).enumerate() {
         x[i] = x[j];
     }
-    for (i, item) in (0..pivot).zip(v.into_iter()) {
+    for (i, item) in (x.len() - pivot..x.len()).zip(v.into_iter()) {
         x[i] = item;
     }
 }
-- 
2.43.0


From 3ea4643227b0f9f4383982b09babbdb22167d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 34/37] hook: show the private building blocks to the harness
 under cfg(kverif)

---
 src/lib.rs    | 34 +++++++++++++++++++++++++++++++++-
 src/willie.rs | 10 ++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f7d6d11..4cf9238 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,4 @@
-#![allow(unused_macros, dead_code)]
+#![allow(unused_macros, dead_code, unexpected_cfgs)]
 use std::f64::consts::PI;
 
 use num_complex::Complex;
@@ -30,6 +30,38 @@ pub mod ssca;
 mod util;
 mod willie;
 
+/// What the verification harness sees of the private modules (`--cfg kverif`).
+#[cfg(kverif)]
+pub mod kverif {
+    pub use crate::costas::CostasLoop;
+    pub use crate::filters::rrcosfilter;
+    pub use crate::willie::kverif::*;
+
+    use num_complex::Complex;
+
+    pub fn bits_to_bytes<I: Iterator<Item = bool>>(bits: I) -> impl Iterator<Item = u8> {
+        crate::bools_to_u8s(bits)
+    }
+    pub fn bytes_to_bits<I: Iterator<Item = u8>>(bytes: I) -> impl Iterator<Item = bool> {
+        crate::u8s_to_bools(bytes)
+    }
+    pub fn no_nans(x: &[f64]) -> bool {
+        crate::no_nans(x)
+    }
+    pub fn no_complex_nans(x: &[Complex<f64>]) -> bool {
+        crate::no_nans(x)
+    }
+    pub fn fftshift(x: &[u32]) -> Vec<u32> {
+        crate::fftshift(x)
+    }
+    pub fn ifftshift(x: &[u32]) -> Vec<u32> {
+        crate::ifftshift(x)
+    }
+    pub fn fftshift_mut(x: &mut [u32]) {
+        crate::fftshift_mut(x)
+    }
+}
+
 use crate::bpsk::{rx_bpsk_signal, tx_baseband_bpsk_signal, tx_bpsk_signal};
 use crate::cdma::tx_cdma_bpsk_signal;
 use crate::csk::tx_baseband_csk;
diff --git a/src/willie.rs b/src/willie.rs
index 793d850..0912be6 100644
--- a/src/willie.rs
+++ b/src/willie.rs
@@ -23,6 +23,16 @@ fn energy_detector(signal: &[f64], n0: f64) -> bool {
     energy.sqrt() > n0
 }
 
+#[cfg(kverif)]
+pub mod kverif {
+    pub fn willie_normal(signal: &[f64], alpha: f64) -> bool {
+        super::normal_detector(signal, alpha)
+    }
+    pub fn willie_energy(signal: &[f64], n0: f64) -> bool {
+        super::energy_detector(signal, n0)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 21f2fcf3738c349b0c36665f5777681ce23f016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 35/37] hook: show the chaos-shift receiver to the harness
 under cfg(kverif)

---
 src/csk.rs | 7 +++++++
 src/lib.rs | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/csk.rs b/src/csk.rs
index 8a9033d..0de5730 100644
--- a/src/csk.rs
+++ b/src/csk.rs
@@ -20,6 +20,13 @@ fn rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item =
         .map(|((sample, chaos_1), chaos_2)| (sample - chaos_1).abs() < (sample - chaos_2).abs())
 }
 
+#[cfg(kverif)]
+pub mod kverif {
+    pub fn rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item = bool> {
+        super::rx_baseband_csk(message)
+    }
+}
+
 #[cfg(test)]
 mod tests {
 
diff --git a/src/lib.rs b/src/lib.rs
index 4cf9238..8bfd75a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,6 +34,7 @@ mod willie;
 #[cfg(kverif)]
 pub mod kverif {
     pub use crate::costas::CostasLoop;
+    pub use crate::csk::kverif::*;
     pub use crate::filters::rrcosfilter;
     pub use crate::willie::kverif::*;
 
-- 
2.43.0


From ced5ad7ea877f162a4204887c5e136f1b0f7b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 36/37] fix: plot_auc_vs_snr analyses its detector values
 before it asks for their area

---
 kom_py/lambdas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kom_py/lambdas.py b/kom_py/lambdas.py
index aa4edfc..81edb85 100644
--- a/kom_py/lambdas.py
+++ b/kom_py/lambdas.py
@@ -134,7 +134,9 @@ def plot_multi_roc_curve(lrs: List[pd.DataFrame], label=""):
 
 
 def plot_auc_vs_snr(h0_λs: List[np.array], h1_λs: List[np.array], snrs: List[float]):
-    aucs: List[float] = [__auc(h0_λ, h1_λ) for h0_λ, h1_λ in zip(h0_λs, h1_λs)]
+    aucs: List[float] = [
+        __auc(__log_regress(h0_λ, h1_λ)) for h0_λ, h1_λ in zip(h0_λs, h1_λs)
+    ]
     fig, ax = plt.subplots()
     ax.plot(db(snrs), aucs)
     ax.set_xlabel("SNR (db)")
-- 
2.43.0


From 7a0390e2cc4a70bcc374662542cdb5cd39e7db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 37/37] fix: plot_best_lambda takes a given table and draws its
 threshold

---
 kom_py/lambdas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kom_py/lambdas.py b/kom_py/lambdas.py
index 81edb85..ca9ae83 100644
--- a/kom_py/lambdas.py
+++ b/kom_py/lambdas.py
@@ -198,7 +198,7 @@ def plot_youden_j_with_multiple_modulations(
 
 def plot_best_lambda(h0_λs: np.array, h1_λs: np.array, lr=None):
     # Get cutoff
-    if not lr:
+    if lr is None:
         lr = __log_regress(h0_λs, h1_λs)
     cut_off = __best_threshold(lr)
 
@@ -214,7 +214,7 @@ def plot_best_lambda(h0_λs: np.array, h1_λs: np.array, lr=None):
     fig, ax = plt.subplots()
     ax.plot(x_hist, h0_hist.pdf(x_hist))
     ax.plot(x_hist, h1_hist.pdf(x_hist))
-    ax.axvline(cut_off.x, color="k", ls="--")
+    ax.axvline(cut_off, color="k", ls="--")
 
 
 def __best_threshold(lr: pd.DataFrame) -> float:
-- 
2.43.0

