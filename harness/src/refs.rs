//! Reference models the laws compare the code against, written from the definitions.

use crate::ensure;
use num_complex::Complex;
use std::f64::consts::PI;

pub type C64 = Complex<f64>;

/// Phase (in radians, reduced) of a carrier `f` Hz at sample `n` of a stream at `fs` Hz.
pub fn phase(f: f64, n: usize, fs: usize) -> f64 {
    let cycles = f * n as f64 / fs as f64;
    2.0 * PI * (cycles - cycles.floor())
}

pub fn ccos(f: f64, n: usize, fs: usize) -> f64 {
    phase(f, n, fs).cos()
}

pub fn csin(f: f64, n: usize, fs: usize) -> f64 {
    phase(f, n, fs).sin()
}

/// Absolute tolerance for one unit-amplitude carrier sample.
pub fn wtol(f: f64, n: usize, fs: usize) -> f64 {
    1e-7 + 1e-11 * (2.0 * PI * f.abs() * n as f64 / fs as f64)
}

pub fn nrz(b: bool) -> f64 {
    if b {
        1.0
    } else {
        -1.0
    }
}

/// Collects at most `limit` items (so a stream that never ends is seen as one that is too long).
pub fn take_up_to<T>(it: impl Iterator<Item = T>, limit: usize) -> Vec<T> {
    it.take(limit).collect()
}

/// Compares a waveform with a reference, sample by sample.
pub fn same_wave(
    what: &str,
    got: &[f64],
    want_len: usize,
    want: impl Fn(usize) -> f64,
    tol: impl Fn(usize) -> f64,
) -> Result<(), String> {
    if got.len() != want_len {
        return Err(format!(
            "{what}: {} samples instead of {want_len}",
            got.len()
        ));
    }
    for (i, &g) in got.iter().enumerate() {
        let w = want(i);
        if !((g - w).abs() <= tol(i)) {
            return Err(format!("{what}: sample {i} is {g}, expected {w}"));
        }
    }
    Ok(())
}

pub fn bits_to_string(b: &[bool]) -> String {
    let mut s: String = b.iter().take(200).map(|&b| if b { '1' } else { '0' }).collect();
    if b.len() > 200 {
        s.push_str("...");
    }
    s
}

pub fn same_bits(what: &str, got: &[bool], want: &[bool]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!(
            "{what}: {} bits instead of {}",
            got.len(),
            want.len()
        ));
    }
    match (0..got.len()).find(|&i| got[i] != want[i]) {
        None => Ok(()),
        Some(i) => Err(format!(
            "{what}: bit {i} of {} is {} instead of {}",
            got.len(),
            got[i],
            want[i]
        )),
    }
}

/// Compares only the bits for which `sure(i)`.
pub fn same_bits_where(
    what: &str,
    got: &[bool],
    want: &[bool],
    sure: impl Fn(usize) -> bool,
) -> Result<usize, String> {
    if got.len() != want.len() {
        return Err(format!(
            "{what}: {} bits instead of {}",
            got.len(),
            want.len()
        ));
    }
    let mut n = 0;
    for i in 0..got.len() {
        if sure(i) {
            n += 1;
            if got[i] != want[i] {
                return Err(format!(
                    "{what}: bit {i} of {} is {} instead of {}",
                    got.len(),
                    got[i],
                    want[i]
                ));
            }
        }
    }
    Ok(n)
}

/// Per-symbol energies and cross-correlation of the carrier pair: (sum cos^2, sum sin^2, sum sin cos).
pub fn gram(fc: f64, fs: usize, sps: usize, sym: usize) -> (f64, f64, f64) {
    let mut g = (0.0, 0.0, 0.0);
    for n in sym * sps..(sym + 1) * sps {
        let p = phase(fc, n, fs);
        let (s, c) = p.sin_cos();
        g.0 += c * c;
        g.1 += s * s;
        g.2 += s * c;
    }
    g
}

/// Naive DFT.
pub fn dft(x: &[C64], inverse: bool) -> Vec<C64> {
    let n = x.len();
    let sign = if inverse { 1.0 } else { -1.0 };
    let tw: Vec<C64> = (0..n)
        .map(|k| C64::from_polar(1.0, sign * 2.0 * PI * k as f64 / n as f64))
        .collect();
    (0..n)
        .map(|k| {
            let mut acc = C64::new(0.0, 0.0);
            for (i, &v) in x.iter().enumerate() {
                acc += v * tw[(i * k) % n];
            }
            acc
        })
        .collect()
}

/// erf by its Maclaurin series / erfc by continued fraction, to ~1e-13.
pub fn erf_ref(x: f64) -> f64 {
    let a = x.abs();
    let v = if a < 3.0 {
        let mut term = a;
        let mut sum = a;
        let mut k = 0.0;
        loop {
            k += 1.0;
            term *= -a * a / k;
            let add = term / (2.0 * k + 1.0);
            sum += add;
            if add.abs() < 1e-17 * sum.abs().max(1e-300) || k > 300.0 {
                break;
            }
        }
        2.0 / PI.sqrt() * sum
    } else if a > 27.0 {
        1.0
    } else {
        let mut f = 0.0;
        for k in (1..=80).rev() {
            f = k as f64 / 2.0 / (a + f);
        }
        1.0 - (-a * a).exp() / (PI.sqrt() * (a + f))
    };
    if x < 0.0 {
        -v
    } else {
        v
    }
}

pub fn q_func(x: f64) -> f64 {
    0.5 * (1.0 - erf_ref(x / 2f64.sqrt()))
}

/// Correlates each whole symbol of `s` with a carrier; returns (correlation, rectified sum).
pub fn correlate(s: &[f64], sps: usize, carrier: impl Fn(usize) -> f64) -> Vec<(f64, f64)> {
    (0..s.len() / sps)
        .map(|k| {
            let mut a = (0.0, 0.0);
            for n in k * sps..(k + 1) * sps {
                a.0 += s[n] * carrier(n);
                a.1 += s[n].abs();
            }
            a
        })
        .collect()
}

/// Moments, tails and whiteness of samples that should be N(0, sigma^2).
pub fn gaussian(what: &str, x: &[f64], sigma: f64) -> Result<(), String> {
    let n = x.len() as f64;
    let z: Vec<f64> = x.iter().map(|v| v / sigma).collect();
    let check = |name: &str, got: f64, want: f64, sd: f64, k: f64| -> Result<(), String> {
        ensure!((got - want).abs() <= k * sd, "{what}: {name} is {got}, expected {want} +- {sd} ({} samples)", x.len());
        Ok(())
    };
    check("mean / sigma", z.iter().sum::<f64>() / n, 0.0, (1.0 / n).sqrt(), 7.0)?;
    check("variance / sigma^2", z.iter().map(|v| v * v).sum::<f64>() / n, 1.0, (2.0 / n).sqrt(), 7.5)?;
    check("third moment", z.iter().map(|v| v.powi(3)).sum::<f64>() / n, 0.0, (15.0 / n).sqrt(), 9.0)?;
    check("fourth moment", z.iter().map(|v| v.powi(4)).sum::<f64>() / n, 3.0, (96.0 / n).sqrt(), 12.0)?;
    for t in [0.5, 1.0, 2.0] {
        let p = 1.0 - erf_ref(t / 2f64.sqrt());
        let f = z.iter().filter(|v| v.abs() > t).count() as f64 / n;
        check(&format!("fraction beyond {t} sigma"), f, p, (p * (1.0 - p) / n).sqrt(), 7.5)?;
    }
    for lag in [1usize, 2, 3, 7] {
        let c = z.iter().zip(&z[lag..]).map(|(a, b)| a * b).sum::<f64>() / n;
        check(&format!("correlation at lag {lag}"), c, 0.0, (1.0 / n).sqrt(), 7.5)?;
    }
    // Constant in time: the variance of each quarter.
    for (q, part) in z.chunks(z.len() / 4).take(4).enumerate() {
        let m = part.len() as f64;
        check(&format!("variance of quarter {q}"), part.iter().map(|v| v * v).sum::<f64>() / m, 1.0, (2.0 / m).sqrt(), 8.0)?;
    }
    Ok(())
}

/// A histogram of standardised noise values, in quarters of a standard deviation, so that millions
/// of samples settle the shape of the distribution out to its far tails.
pub struct Shape {
    n: f64,
    bins: [u64; 48],
}

impl Shape {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Shape {
        Shape { n: 0.0, bins: [0; 48] }
    }

    pub fn add(&mut self, z: f64) {
        self.n += 1.0;
        // Values beyond 6 sigma count in the outermost bins; NaN ends up in none of them.
        if !z.is_nan() {
            self.bins[((z.clamp(-5.99, 5.99) + 6.0) * 4.0) as usize] += 1;
        }
    }

    /// Every bin, and every tail, holds as many values as a normal distribution puts there: a
    /// Chernoff bound of 1e-12 on either side.
    pub fn normal(&self, what: &str) -> Result<(), String> {
        let pdf = |x: f64| (-x * x / 2.0).exp() / (2.0 * PI).sqrt();
        let mass = |i: usize| {
            // Simpson's rule; the outermost bins reach to infinity (beyond 9 there is nothing).
            let (a, b) = (if i == 0 { -9.0 } else { i as f64 / 4.0 - 6.0 }, if i == 47 { 9.0 } else { (i + 1) as f64 / 4.0 - 6.0 });
            let k = 200;
            let h = (b - a) / k as f64;
            (0..=k).map(|j| pdf(a + j as f64 * h) * if j == 0 || j == k { 1.0 } else if j % 2 == 1 { 4.0 } else { 2.0 }).sum::<f64>() * h / 3.0
        };
        let p: Vec<f64> = (0..48).map(mass).collect();
        let verdict = |name: String, k: u64, q: f64| -> Result<(), String> {
            let f = k as f64 / self.n;
            let side = |f: f64, q: f64| if f == 0.0 { 0.0 } else { f * (f / q).ln() };
            let exponent = self.n * (side(f, q) + side(1.0 - f, 1.0 - q));
            ensure!(exponent < 27.6, "{what}: {k} of {} values {name}, expected {:.1}", self.n, q * self.n);
            Ok(())
        };
        for i in 0..48 {
            let a = i as f64 / 4.0 - 6.0;
            verdict(format!("between {a} and {} sigma", a + 0.25), self.bins[i], p[i])?;
        }
        for i in 0..24 {
            let t = 6.0 - i as f64 / 4.0 - 0.25;
            verdict(format!("below -{t} sigma"), self.bins[..=i].iter().sum(), p[..=i].iter().sum())?;
            verdict(format!("above {t} sigma"), self.bins[47 - i..].iter().sum(), p[47 - i..].iter().sum())?;
        }
        let total: u64 = self.bins.iter().sum();
        ensure!(total as f64 == self.n, "{what}: {} values are not numbers", self.n - total as f64);
        Ok(())
    }
}

pub fn uncorrelated(what: &str, a: &[f64], b: &[f64], sa: f64, sb: f64) -> Result<(), String> {
    let n = a.len() as f64;
    let c = a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>() / n / sa / sb;
    ensure!(c.abs() <= 8.0 / n.sqrt(), "{what}: correlation {c} over {n} samples");
    Ok(())
}


/// Radix-2 FFT (length a power of two).
pub fn fft2(x: &[C64], inverse: bool) -> Vec<C64> {
    let n = x.len();
    assert!(n.is_power_of_two());
    let bits = n.trailing_zeros();
    let mut v: Vec<C64> = (0..n).map(|i| x[if bits == 0 { 0 } else { i.reverse_bits() >> (usize::BITS - bits) }]).collect();
    let sign = if inverse { 1.0 } else { -1.0 };
    let mut len = 2;
    while len <= n {
        let w: Vec<C64> = (0..len / 2).map(|k| C64::from_polar(1.0, sign * 2.0 * PI * k as f64 / len as f64)).collect();
        for b in v.chunks_mut(len) {
            let (lo, hi) = b.split_at_mut(len / 2);
            for k in 0..len / 2 {
                let t = hi[k] * w[k];
                hi[k] = lo[k] - t;
                lo[k] += t;
            }
        }
        len *= 2;
    }
    v
}

/// sum over i of a[i + lag] conj(b[i]), for every lag from 0 (no wrap-around).
pub fn correlate_lags(a: &[C64], b: &[C64]) -> Vec<C64> {
    let n = a.len();
    let m = (2 * n).next_power_of_two();
    let pad = |x: &[C64]| {
        let mut v = x.to_vec();
        v.resize(m, C64::new(0.0, 0.0));
        fft2(&v, false)
    };
    let (fa, fb) = (pad(a), pad(b));
    let p: Vec<C64> = fa.iter().zip(&fb).map(|(x, y)| x * y.conj()).collect();
    fft2(&p, true).into_iter().take(n).map(|x| x / m as f64).collect()
}

/// What `kverif draw` prints in a process of its own; nothing if it cannot be run.
pub fn drawn_elsewhere(what: &str) -> Option<Vec<String>> {
    let out = std::process::Command::new(std::env::current_exe().ok()?).args(["draw", what]).stderr(std::process::Stdio::null()).output().ok()?;
    let text = String::from_utf8_lossy(&out.stdout);
    let lines: Vec<String> = text.lines().filter_map(|l| l.strip_prefix("draw ")).map(str::to_string).collect();
    (out.status.success() && !lines.is_empty()).then_some(lines)
}
