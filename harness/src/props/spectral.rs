//! C22: band-pass filters. C23: spectral correlation (SSCA).

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::bpf::*;
use komunikilo::hamming_window;
use komunikilo::ssca::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C22", laws: c22, assumptions: &["whole blocks of fft_len samples for the FFT filter", "the spectrum of the Butterworth filter is checked for bands between 8 % and 40 % of Nyquist wide, with edges at most a ratio of 2.8 apart (wider ones lose precision near DC in the filter cascade) and away from 0 and Nyquist, on streams of at least 4096 samples; its length and linearity on every stream"] },
        Property { id: "C23", laws: c23, assumptions: &["np even, n > np, at least n + np samples; the mapped form for every n and np, points that share a cell excepted"] },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Band {
    n: usize,
    fs: usize,
    /// Edges, in units of a quarter of a bin (so on a bin, between bins, or next to one).
    lo: usize,
    hi: usize,
    blocks: usize,
    seed: u64,
}

impl Band {
    fn edge(&self, q: usize) -> f64 {
        q as f64 * self.fs as f64 / (4 * self.n) as f64
    }
    fn keep(&self, k: usize) -> bool {
        4 * k >= self.lo && 4 * k <= self.hi
    }
    fn samples(&self) -> Vec<f64> {
        let mut r = Prng(self.seed);
        (0..self.n * self.blocks).map(|i| self.level(i / self.n) * r.gauss()).collect()
    }
    /// The amplitude of a block.
    fn level(&self, block: usize) -> f64 {
        level(self.seed, block)
    }
}

/// Blocks of unit size mostly; in some signals each has a size of its own, or is broken (NaN).
fn level(seed: u64, block: usize) -> f64 {
    let mut r = Prng(mix(seed ^ mix(block as u64 + 1)));
    match seed % 5 {
        0 => 10f64.powf(r.range(-20.0, 20.0)),
        1 if r.below(3) == 0 => [0.0, 1e-200, 1e-13, 1e150, f64::NAN][r.below(5)],
        _ => 1.0,
    }
}

fn band(max: usize, maxblocks: usize) -> BoxedStrategy<Band> {
    (prop_oneof![2 => size(2, max), 1 => prop::sample::select(vec![4usize, 8, 16, 64, 128]).prop_map(move |x| x.min(max))], 1usize..2000, any::<u32>(), any::<u32>(), 0..=maxblocks, any::<u64>())
        .prop_map(|(n, m, a, b, blocks, seed)| {
            // A bin is m Hz wide: every bin frequency and edge is exact.
            let fs = n * m * 4;
            let top = 2 * n + 4;
            let (a, b) = (a as usize % (top + 1), b as usize % (top + 1));
            let (lo, hi) = match seed % 8 {
                0 => (0, top),
                1 => (a, top),
                2 => (0, a),
                3 => (a, a),
                _ => (a.min(b), a.max(b)),
            };
            Band { n, fs, lo, hi, blocks, seed }
        })
        .boxed()
}

fn pass(b: &Band, x: &[f64]) -> Result<Vec<f64>, String> {
    let y = take_up_to(bandpass(b.edge(b.lo), b.edge(b.hi), x.iter().copied(), b.fs, b.n), x.len() + b.n + 1);
    ensure!(y.len() == x.len(), "{} samples for {}", y.len(), x.len());
    Ok(y)
}

fn power_of(x: &[f64]) -> f64 {
    x.iter().map(|v| v * v).sum::<f64>() / x.len() as f64
}

fn c22() -> Vec<Law> {
    vec![
        law(
            "fft_bandpass_spectrum",
            "some bins are kept and some are removed",
            cases(2500, 40_000),
            || band(160, 3),
            |b: &Band| {
                let x = b.samples();
                let y = pass(b, &x)?;
                let c = |v: &[f64]| v.iter().map(|&a| C64::new(a, 0.0)).collect::<Vec<_>>();
                let (mut kept, mut cut) = (0, 0);
                for (i, (xb, yb)) in x.chunks(b.n).zip(y.chunks(b.n)).enumerate() {
                    let g = b.level(i);
                    if g.is_nan() {
                        continue;
                    }
                    let (fx, fy) = (dft(&c(xb), false), dft(&c(yb), false));
                    for k in 0..=b.n / 2 {
                        let want = if b.keep(k) { fx[k] } else { C64::new(0.0, 0.0) };
                        if b.keep(k) { kept += 1 } else { cut += 1 }
                        ensure!((fy[k] - want).norm() <= 1e-9 * g * b.n as f64, "block {i}, bin {k}: {} instead of {want}", fy[k]);
                    }
                }
                held(kept > 0 && cut > 0, &[bucket("n", b.n), format!("blocks:{}", b.blocks)])
            },
        ),
        law(
            "fft_bandpass_algebra",
            "at least one block and a proper sub-band",
            cases(1500, 20_000),
            || band(2048, 4),
            |b: &Band| {
                // Idempotent; complementary bands add up to the signal; blocks do not interact.
                let x = b.samples();
                let y = pass(b, &x)?;
                let yy = pass(b, &y)?;
                // A broken block is not compared (nor does it matter to the others).
                let tol = |i: usize| if b.level(i / b.n).is_nan() { f64::INFINITY } else { 1e-9 * b.level(i / b.n) };
                let clean = |v: &[f64]| v.iter().enumerate().map(|(i, a)| if tol(i) == f64::INFINITY { 0.0 } else { *a }).collect::<Vec<f64>>();
                let (x0, y0) = (clean(&x), clean(&y));
                same_wave("filtered twice", &clean(&yy), x.len(), |i| y0[i], tol)?;
                let mut sum = y.clone();
                for (lo, hi) in [(0usize, b.lo.saturating_sub(1)), (b.hi + 1, 4 * b.n)] {
                    if lo == 0 && b.lo == 0 {
                        continue;
                    }
                    let rest = Band { lo, hi, ..b.clone() };
                    for (s, v) in sum.iter_mut().zip(pass(&rest, &x)?) {
                        *s += v;
                    }
                }
                same_wave("sum of the bands", &clean(&sum), x.len(), |i| x0[i], tol)?;
                if b.blocks > 1 {
                    let k = b.n * (b.blocks - 1);
                    let last = pass(b, &x[k..])?;
                    if !b.level(b.blocks - 1).is_nan() {
                        same_wave("last block alone", &last, b.n, |i| y[k + i], |i| tol(k + i))?;
                    }
                }
                held(b.blocks > 0 && (b.lo > 0 || b.hi < 2 * b.n), &[bucket("n", b.n), format!("blocks:{}", b.blocks)])
            },
        ),
        law(
            "fft_bandpass_any_rate",
            "some bins are kept and some are removed",
            cases(2500, 40_000),
            || (size(2, 300), 1usize..3_000_000, 0.0f64..1.1, 0.0f64..1.1, 1usize..4, any::<u64>()).boxed(),
            |&(n, fs, a, b, blocks, seed): &(usize, usize, f64, f64, usize, u64)| {
                // Rates that are no multiple of the block and edges anywhere.
                let (lo, hi) = (a.min(b) * fs as f64 / 2.0, a.max(b) * fs as f64 / 2.0);
                let mut r = Prng(seed);
                let x: Vec<f64> = (0..n * blocks).map(|i| level(seed, i / n) * r.gauss()).collect();
                let y = take_up_to(bandpass(lo, hi, x.iter().copied(), fs, n), x.len() + n + 1);
                ensure!(y.len() == x.len(), "{} samples for {}", y.len(), x.len());
                let c = |v: &[f64]| v.iter().map(|&a| C64::new(a, 0.0)).collect::<Vec<_>>();
                let (mut kept, mut cut) = (0, 0);
                for (i, (xb, yb)) in x.chunks(n).zip(y.chunks(n)).enumerate() {
                    let g = level(seed, i);
                    if g.is_nan() {
                        continue;
                    }
                    let (fx, fy) = (dft(&c(xb), false), dft(&c(yb), false));
                    for k in 0..=n / 2 {
                        let f = k as f64 * fs as f64 / n as f64;
                        if (f - lo).abs() < 1e-9 * fs as f64 || (f - hi).abs() < 1e-9 * fs as f64 {
                            continue;
                        }
                        let keep = f > lo && f < hi;
                        if keep { kept += 1 } else { cut += 1 }
                        let want = if keep { fx[k] } else { C64::new(0.0, 0.0) };
                        ensure!((fy[k] - want).norm() <= 1e-9 * g * n as f64, "block {i}, bin {k} ({f} Hz of {lo}..{hi}): {} instead of {want}", fy[k]);
                    }
                }
                held(kept > 0 && cut > 0, &[bucket("n", n), format!("odd_rate:{}", fs % n != 0)])
            },
        ),
        law(
            "fft_bandpass_long",
            "always",
            cases(6, 100),
            || (prop_oneof![(Just(8192usize), 1usize..120), (Just(4096), 1usize..250), (Just(10_000), 1usize..100), (Just(65_536), 1usize..12)], 1000usize..200_000, any::<u64>()).boxed(),
            |&((n, blocks), fs, seed): &((usize, usize), usize, u64)| {
                // Tones on bins in noise-free blocks, each with its own amplitude: the ones in band stay.
                let mut r = Prng(seed);
                let (a, b) = (r.below(n / 2 + 1), r.below(n / 2 + 1));
                let (ka, kb) = (a.min(b), a.max(b));
                let hz = |k: f64| k * fs as f64 / n as f64;
                let (lo, hi) = (hz(ka as f64 - 0.5), hz(kb as f64 + 0.5));
                let tones: Vec<(usize, f64)> = [ka, kb, (ka + kb) / 2, ka.saturating_sub(1), (kb + 1).min(n / 2), r.below(n / 2)].iter().map(|&k| (k, r.range(0.5, 2.0))).collect();
                let gains: Vec<f64> = (0..blocks).map(|i| r.range(0.1, 3.0) * level(seed, i)).collect();
                let tab: Vec<f64> = (0..n).map(|i| (2.0 * PI * i as f64 / n as f64).cos()).collect();
                let at = |i: usize, inside: bool| -> f64 {
                    gains[i / n] * tones.iter().filter(|t| !inside || (t.0 >= ka && t.0 <= kb)).map(|&(k, g)| g * tab[(k * (i % n)) % n]).sum::<f64>()
                };
                let len = n * blocks;
                let mut count = 0;
                for (i, y) in bandpass(lo, hi, (0..len).map(|i| at(i, false)), fs, n).enumerate() {
                    ensure!(i < len, "more samples than were given");
                    let want = at(i, true);
                    let g = gains[i / n];
                    ensure!(g.is_nan() || (y - want).abs() <= 1e-8 * g, "sample {i} is {y} instead of {want}");
                    count += 1;
                }
                ensure!(count == len, "{count} samples for {len}");
                held(true, &[bucket("n", n), bucket("len", len)])
            },
        ),
        law(
            "butterworth_length_and_linearity",
            "the stream is not empty",
            cases(200, 4000),
            || (
                1000usize..100_000,
                0.1f64..0.5,
                0.08f64..0.4,
                prop_oneof![4 => size(0, 500), 2 => 0usize..6000, 1 => prop::sample::select(vec![81_919usize, 81_920, 81_921, 82_000, 82_307, 82_308, 163_840, 163_841])],
                any::<u64>(),
            )
                .boxed(),
            |&(fs, lo, width, n, seed): &(usize, f64, f64, usize, u64)| {
                let hi = (lo + width).min(2.8 * lo).min(0.92);
                let nyq = fs as f64 / 2.0;
                let mut r = Prng(seed);
                let x: Vec<f64> = (0..n).map(|_| r.gauss()).collect();
                // A power of two, so that scaling is exact.
                let g = if r.next() & 1 == 0 { 1.0 } else { -1.0 } * 2f64.powi(if r.below(4) == 0 { r.below(401) as i32 - 200 } else { r.below(21) as i32 - 10 });
                let run = |x: &[f64]| take_up_to(butterpass(lo * nyq, hi * nyq, x.iter().copied(), fs), n + 2);
                let y = run(&x);
                ensure!(y.len() == n, "{} samples for {n}", y.len());
                if n > 20_000 {
                    return held(true, &[bucket("n", n)]);
                }
                let scaled: Vec<f64> = x.iter().map(|v| v * g).collect();
                let z = run(&scaled);
                let top = y.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                ensure!(top < 1000.0, "a unit noise comes out as large as {top}");
                same_wave("scaled stream", &z, n, |i| y[i] * g, |_| 1e-9 * g.abs() * (1.0 + top))?;
                held(n > 0, &[bucket("n", n)])
            },
        ),
        law(
            "butterworth_bandpass",
            "always",
            cases(160, 3000),
            || (1000usize..100_000, 0.08f64..0.5, 0.08f64..0.4, 4096usize..12_000, any::<u64>()).boxed(),
            butter,
        ),
        law(
            "butterworth_response",
            "the response at the tone is between 5 % and 95 %",
            cases(160, 3000),
            || (1000usize..100_000, 0.08f64..0.5, 0.08f64..0.4, 9000usize..14_000, -3.5f64..3.5, any::<bool>(), 0.0f64..6.2).boxed(),
            |&(fs, lo, width, n, u, upper, ph): &(usize, f64, f64, usize, f64, bool, f64)| {
                // Near the edges of the band, the zero-phase amplitude is that of the squared
                // 64th order Butterworth response: one half exactly on an edge.
                let hi = (lo + width).min(2.8 * lo).min(0.92);
                let nyq = fs as f64 / 2.0;
                let (wl, wh) = ((PI * lo / 2.0).tan(), (PI * hi / 2.0).tan());
                let q = (u / 128.0).exp() * (wh - wl);
                let w = (if upper { q } else { -q } + (q * q + 4.0 * wl * wh).sqrt()) / 2.0;
                let f = 2.0 / PI * w.atan();
                let want = 1.0 / (1.0 + u.exp());
                let x: Vec<f64> = (0..n).map(|i| (PI * f * i as f64 + ph).cos()).collect();
                let y = take_up_to(butterpass(lo * nyq, hi * nyq, x.iter().copied(), fs), n + 2);
                ensure!(y.len() == n, "{} samples for {n}", y.len());
                for i in n * 2 / 5..n * 3 / 5 {
                    ensure!(
                        (y[i] - want * x[i]).abs() < 0.02,
                        "a tone at {f} of Nyquist, at an edge of {lo}..{hi}, has amplitude {} of {} at sample {i}, not {want} of it",
                        y[i],
                        x[i]
                    );
                }
                held(u.abs() < 3.0, &[bucket("n", n), if u.abs() < 3.0 { "steep" } else { "flat" }.to_string()])
            },
        ),
        law(
            "butterworth_long",
            "always",
            cases(4, 60),
            || (1000usize..100_000, 0.08f64..0.5, 0.08f64..0.4, 165_000usize..200_000, any::<u64>()).boxed(),
            butter,
        ),
    ]
}

fn butter(c: &(usize, f64, f64, usize, u64)) -> Res {
    let (fs, lo, width, n, seed) = (c.0, c.1, c.2, c.3, c.4);
    let hi = (lo + width).min(2.8 * lo).min(0.92);
    let nyq = fs as f64 / 2.0;
    let mut r = Prng(seed);
    let run = |x: &[f64]| -> Result<Vec<f64>, String> {
        let y = take_up_to(butterpass(lo * nyq, hi * nyq, x.iter().copied(), fs), n + 2);
        ensure!(y.len() == n, "{} samples for {n}", y.len());
        Ok(y)
    };
    let tone = |f: f64, ph: f64| -> Vec<f64> { (0..n).map(|i| (PI * f * i as f64 + ph).cos()).collect() };
    let ph = r.range(0.0, 6.0);
    let mid = |v: &[f64]| v[v.len() / 4..v.len() * 3 / 4].to_vec();
    // In the middle of the band the tone passes with its amplitude and phase (zero-phase filter).
    let w = hi - lo;
    let fin = lo + w * r.range(0.25, 0.75);
    let x = tone(fin, ph);
    let y = run(&x)?;
    let err = power_of(&mid(&y.iter().zip(&x).map(|(a, b)| a - b).collect::<Vec<_>>()));
    ensure!(err < 1e-2, "a tone at {fin} of Nyquist inside {lo}..{hi} is changed: error power {err}");
    // Well outside, it is removed.
    let below = lo * r.range(0.0, 0.75);
    let above = hi + (1.0 - hi) * r.range(0.4, 0.95);
    for f in [below, above] {
        let y = run(&tone(f, ph))?;
        let p = power_of(&mid(&y));
        ensure!(p < 1e-2, "a tone at {f} of Nyquist outside {lo}..{hi} passes with power {p}");
    }
    held(true, &[bucket("n", n)])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scd {
    n: usize,
    np: usize,
    extra: usize,
    wave: u8,
    seed: u64,
}

impl Scd {
    /// The amplitude of the signal.
    fn gain(&self) -> f64 {
        let mut r = Prng(mix(self.seed));
        if r.below(3) == 0 { 10f64.powf(r.range(-60.0, 60.0)) } else { 1.0 }
    }
    fn samples(&self) -> Vec<f64> {
        let g = self.gain();
        self.unit_samples().into_iter().map(|x| g * x).collect()
    }
    /// The size of rounding errors in a cell.
    fn tol(&self) -> f64 {
        1e-12 * self.gain().powi(2) * (self.n * self.np) as f64
    }
    fn unit_samples(&self) -> Vec<f64> {
        let len = self.n + self.np + self.extra;
        let mut r = Prng(self.seed);
        match self.wave {
            0 => (0..len).map(|_| r.gauss()).collect(),
            1 => {
                let f = r.range(0.0, 0.5);
                (0..len).map(|i| (2.0 * PI * f * i as f64).cos()).collect()
            }
            2 => {
                // BPSK.
                let (f, sps) = (r.range(0.05, 0.45), 2 + r.below(10));
                let mut b = 1.0;
                (0..len)
                    .map(|i| {
                        if i % sps == 0 {
                            b = nrz(r.next() & 1 == 1);
                        }
                        b * (2.0 * PI * f * i as f64).cos()
                    })
                    .collect()
            }
            _ => {
                let k = r.below(len);
                (0..len).map(|i| f64::from(i == k || i == 0)).collect()
            }
        }
    }
}

fn scd(maxn: usize, pow2: bool) -> BoxedStrategy<Scd> {
    (2usize..=maxn, 1usize..16, 0usize..40, 0u8..4, any::<u64>())
        .prop_map(move |(a, b, extra, wave, seed)| {
            let (mut n, mut np) = (a, 2 * b);
            if pow2 {
                np = np.next_power_of_two();
                n = n.next_power_of_two();
            }
            if n <= np {
                n = 2 * np;
            }
            Scd { n, np, extra, wave, seed }
        })
        .boxed()
}

/// The channel-data product of the SSCA at time `i`, for every channel.
fn product(s: &[f64], n: usize, np: usize, i: usize, a: &[f64], g: f64) -> Vec<C64> {
    let x: Vec<C64> = (0..np).map(|m| C64::new(s[i + m] * a[m], 0.0)).collect();
    let f = dft(&x, false);
    let _ = n;
    (0..np)
        .map(|j| {
            let k = j as f64 - (np / 2) as f64;
            let turn = k * i as f64 / np as f64;
            f[(j + np - np / 2) % np] * C64::from_polar(1.0, -2.0 * PI * (turn - turn.floor())) * s[i + np / 2] * g
        })
        .collect()
}

fn scd_ref(s: &[f64], n: usize, np: usize) -> Vec<Vec<C64>> {
    let (a, g) = (hamming_window(np), hamming_window(n));
    let p: Vec<Vec<C64>> = (0..n).map(|i| product(s, n, np, i, &a, g[i])).collect();
    let mut out = vec![vec![C64::new(0.0, 0.0); np]; n];
    for j in 0..np {
        let f = dft(&p.iter().map(|r| r[j]).collect::<Vec<_>>(), false);
        for q in 0..n {
            out[q][j] = f[(q + n - n / 2) % n];
        }
    }
    out
}

fn c23() -> Vec<Law> {
    vec![
        law(
            "ssca_is_its_definition",
            "always",
            cases(700, 12_000),
            || scd(160, false),
            |c: &Scd| {
                let s = c.samples();
                let sx = ssca_base(s.clone(), c.n, c.np);
                ensure!(sx.dim() == (c.n, c.np), "shape {:?}", sx.dim());
                let want = scd_ref(&s, c.n, c.np);
                for q in 0..c.n {
                    for k in 0..c.np {
                        ensure!((sx[[q, k]] - want[q][k]).norm() < c.tol(), "S[{q}, {k}] is {}, expected {}", sx[[q, k]], want[q][k]);
                    }
                }
                held(true, &[bucket("n", c.n), format!("np:{}", c.np), format!("wave:{}", c.wave)])
            },
        ),
        law(
            "mapping_to_frequency_and_cycle_frequency",
            "always",
            cases(700, 12_000),
            || prop_oneof![scd(128, true), scd(160, false)].boxed(),
            |c: &Scd| {
                let s = c.samples();
                let (n, np) = (c.n, c.np);
                let sx = ssca_base(s.clone(), n, np);
                let m = ssca_mapped(s, n, np);
                ensure!(m.dim() == (np + 1, 2 * n + 1), "shape {:?}", m.dim());
                let cell = |q: usize, k: usize| {
                    // f = k / 2np - q / 2n + 1/2 in units of 1/np, alpha = k / np + q / n in units of 1/n.
                    let row = (k * n + n * np - q * np) / (2 * n);
                    let col = k * n / np + q;
                    row * (2 * n + 1) + col
                };
                let mut points: Vec<Vec<(usize, usize)>> = vec![Vec::new(); (np + 1) * (2 * n + 1)];
                for q in 0..n {
                    for k in 0..np {
                        points[cell(q, k)].push((q, k));
                    }
                }
                let mut shared = 0;
                for row in 0..=np {
                    for col in 0..=2 * n {
                        let p = &points[row * (2 * n + 1) + col];
                        let v = m[[row, col]];
                        shared += usize::from(p.len() > 1);
                        ensure!(!p.is_empty() || v.norm() == 0.0, "cell ({row}, {col}) should be empty");
                        ensure!(p.is_empty() || p.iter().any(|&(q, k)| (v - sx[[q, k]]).norm() < c.tol()), "cell ({row}, {col}) is {v}, not one of S[q, k] for (q, k) in {p:?}");
                    }
                }
                ensure!(n % np != 0 || shared == 0, "points share a cell");
                held(true, &[bucket("n", n), format!("np:{np}"), format!("pow2:{}", n.is_power_of_two() && np.is_power_of_two())])
            },
        ),
        law(
            "full_size_estimate",
            "always",
            cases(8, 150),
            || (prop_oneof![(Just(4096usize), Just(64usize)), (Just(2048), Just(128)), (Just(8192), Just(32)), (Just(1000), Just(50)), (Just(3000), Just(60)), (Just(1024), Just(512)), (Just(16384), Just(16)), (Just(4095), Just(64))], 0u8..3, any::<u64>()).prop_map(|((n, np), wave, seed)| Scd { n, np, extra: 0, wave, seed }).boxed(),
            |c: &Scd| {
                // Spot checks of the default size against the definition.
                let s = c.samples();
                let (n, np) = (c.n, c.np);
                let sx = ssca_base(s.clone(), n, np);
                ensure!(sx.dim() == (n, np), "shape {:?}", sx.dim());
                let (a, g) = (hamming_window(np), hamming_window(n));
                let mut r = Prng(c.seed);
                for _ in 0..3 {
                    let j = r.below(np);
                    let k = j as f64 - (np / 2) as f64;
                    let p: Vec<C64> = (0..n)
                        .map(|i| {
                            let mut f = C64::new(0.0, 0.0);
                            for m in 0..np {
                                let t = k * (i + m) as f64 / np as f64;
                                f += s[i + m] * a[m] * C64::from_polar(1.0, -2.0 * PI * (t - t.floor()));
                            }
                            f * s[i + np / 2] * g[i]
                        })
                        .collect();
                    for _ in 0..20 {
                        let q = r.below(n);
                        let fq = q as f64 - (n / 2) as f64;
                        let want: C64 = p
                            .iter()
                            .enumerate()
                            .map(|(i, v)| {
                                let t = fq * i as f64 / n as f64;
                                v * C64::from_polar(1.0, -2.0 * PI * (t - t.floor()))
                            })
                            .sum();
                        ensure!((sx[[q, j]] - want).norm() < 10.0 * c.tol(), "S[{q}, {j}] is {}, expected {want}", sx[[q, j]]);
                    }
                }
                held(true, &[format!("n:{n}")])
            },
        ),
        law(
            "quadratic_in_the_signal",
            "always",
            cases(500, 6000),
            || (scd(256, false), 0.01f64..50.0, any::<bool>()).boxed(),
            |(c, g, neg): &(Scd, f64, bool)| {
                let s = c.samples();
                let g = if *neg { -g } else { *g };
                let a = ssca_base(s.clone(), c.n, c.np);
                let b = ssca_base(s.iter().map(|x| x * g).collect(), c.n, c.np);
                for (x, y) in a.iter().zip(b.iter()) {
                    ensure!((x * g * g - y).norm() <= g * g * c.tol(), "gain {g}: {y} instead of {}", x * g * g);
                }
                held(true, &[bucket("n", c.n)])
            },
        ),
        law(
            "cyclic_features_of_a_tone",
            "always",
            cases(120, 1500),
            || (0.06f64..0.44, any::<u64>()).boxed(),
            |(f, seed): &(f64, u64)| {
                // A real tone at f correlates its +f and -f lines: the strongest point away from
                // cycle frequency 0 is at twice the carrier.
                let (n, np) = (512usize, 16usize);
                let mut r = Prng(*seed);
                let ph = r.range(0.0, 6.0);
                let s: Vec<f64> = (0..n + np).map(|i| (2.0 * PI * f * i as f64 + ph).cos()).collect();
                let sx = ssca_base(s, n, np);
                let mut best = (0.0, 0.0);
                for q in 0..n {
                    for k in 0..np {
                        let alpha = (k as f64 - (np / 2) as f64) / np as f64 + (q as f64 - (n / 2) as f64) / n as f64;
                        if alpha > 0.05 && sx[[q, k]].norm() > best.0 {
                            best = (sx[[q, k]].norm(), alpha);
                        }
                    }
                }
                // Cycle frequencies are known modulo 1.
                let d = (best.1 - 2.0 * f).abs().min((best.1 - 2.0 * f + 1.0).abs()).min((best.1 - 2.0 * f - 1.0).abs());
                ensure!(d < 0.01, "tone at {f}: strongest cycle frequency {} (power {})", best.1, best.0);
                held(true, &[])
            },
        ),
    ]
}
