//! C20: metrics and elementary functions. C21: noise.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::*;
use proptest::prelude::*;
use std::f64::consts::PI;

/// A draw of each source of noise, as text.
pub fn draw() -> Vec<String> {
    vec![
        format!("{:?}", awgn([0.0; 8].into_iter(), 1.0).collect::<Vec<f64>>()),
        format!("{:?}", awgn_complex([C64::new(0.0, 0.0); 8].into_iter(), 1.0).collect::<Vec<C64>>()),
    ]
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C20", laws: c20, assumptions: &["erf/erfc are compared to 3e-7 (the accuracy of the approximation the code uses is 1.2e-7)"] },
        Property { id: "C21", laws: c21, assumptions: &["the library's generator cannot be seeded: statistics are compared with intervals of 7 to 9 standard deviations, so a false alarm has a probability below 1e-9 per comparison"] },
    ]
}

fn rel(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    ensure!((got - want).abs() <= tol * want.abs().max(1e-300), "{what} is {got}, expected {want}");
    Ok(())
}

fn end() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => -1e6f64..1e6,
        1 => prop::sample::select(vec![0.0, 1.0, -1.0, 1e-9, -1e-12, 1e9, -1e12, 1e15]),
        1 => (-12.0f64..12.0, any::<bool>()).prop_map(|(e, neg)| if neg { -10f64.powf(e) } else { 10f64.powf(e) }),
    ]
    .boxed()
}

fn bermsg() -> BoxedStrategy<Msg> {
    prop_oneof![
        300 => msg_in(1, 20_000),
        1 => (20_000usize..3_000_000, any::<u64>(), 3u8..12).prop_map(|(len, seed, pattern)| Msg::Gen { len, seed, pattern }),
    ]
    .boxed()
}

fn c20() -> Vec<Law> {
    vec![
        law(
            "ber_counts_errors",
            "both sequences non-empty and at least one error",
            cases(5000, 80_000),
            || (bermsg(), bermsg(), any::<u64>()).boxed(),
            |(a, b, s): &(Msg, Msg, u64)| {
                let a = a.bits();
                // Related half of the time: a copy with some flips and another length.
                let b: Vec<bool> = if s % 2 == 0 {
                    b.bits()
                } else {
                    let mut r = Prng(*s);
                    let p = 1 + r.below(50);
                    a.iter().take((a.len() / (1 + r.below(3))).max(1)).map(|x| x ^ (r.below(p) == 0)).collect()
                };
                let n = a.len().min(b.len());
                let e = (0..n).filter(|&i| a[i] != b[i]).count();
                let want = e as f64 / n as f64;
                ensure!((ber(&a, &b) - want).abs() <= 1e-15, "{} for {e} errors in {n}", ber(&a, &b));
                ensure!((ber(&b, &a) - want).abs() <= 1e-15, "not symmetric");
                ensure!(ber(&a, &a) == 0.0, "BER of a sequence with itself is {}", ber(&a, &a));
                let not: Vec<bool> = a.iter().map(|x| !x).collect();
                ensure!(ber(&a, &not) == 1.0, "BER of the complement is {}", ber(&a, &not));
                held(e > 0, &[bucket("n", n), format!("same_len:{}", a.len() == b.len())])
            },
        ),
        law(
            "energy_and_power",
            "at least two samples, not all zero",
            cases(5000, 80_000),
            || (prop_oneof![300 => wave(1, 8000), 1 => long_wave(3_000_000)], prop_oneof![3 => 1usize..1_000_000, 1 => symbol_rate()]).boxed(),
            |(w, fs): &(Wave, usize)| {
                let s = w.samples();
                let fs = *fs as f64;
                let sum: f64 = s.iter().map(|x| x * x).sum();
                let n = s.len() as f64;
                rel("avg_energy", avg_energy(&s), sum / n, 1e-9)?;
                rel("avg_energy_py", avg_energy_py(s.clone()), sum / n, 1e-9)?;
                rel("energy", energy(s.iter().copied(), fs), sum / fs, 1e-9)?;
                rel("power", power(s.iter().copied(), fs), sum / n / fs, 1e-9)?;
                held(s.len() > 1 && sum > 0.0, &[bucket("n", s.len())])
            },
        ),
        law(
            "decibels",
            "always",
            cases(5000, 80_000),
            || (-300.0f64..300.0, 1e-3f64..1e3).boxed(),
            |(d, k): &(f64, f64)| {
                let x = undb(*d);
                rel("undb", x, 10f64.powf(d / 10.0), 1e-12)?;
                ensure!((db(x) - d).abs() < 1e-9, "db(undb({d})) = {}", db(x));
                ensure!((db(x * k) - db(x) - 10.0 * k.log10()).abs() < 1e-9, "db is not logarithmic at {x} * {k}");
                rel("undb sum", undb(d / 2.0) * undb(d / 2.0), x, 1e-9)?;
                held(true, &[])
            },
        ),
        law(
            "error_functions",
            "|x| < 5",
            cases(8000, 200_000),
            || prop_oneof![4 => -6.0f64..6.0, 1 => -1e-3f64..1e-3, 1 => -40.0f64..40.0, 1 => (-12.0f64..3.0, any::<bool>()).prop_map(|(e, neg)| if neg { -10f64.powf(e) } else { 10f64.powf(e) }), 1 => prop::sample::select(vec![0.0, 1.0, -1.0, 0.5, 2.0, 3.0, 1e3, -1e3])].boxed(),
            |x: &f64| {
                let want = erf_ref(*x);
                ensure!((erf(*x) - want).abs() < 3e-7, "erf({x}) = {}, expected {want}", erf(*x));
                ensure!((erfc(*x) - (1.0 - want)).abs() < 3e-7, "erfc({x}) = {}, expected {}", erfc(*x), 1.0 - want);
                ensure!((erf(*x) + erf(-x)).abs() < 3e-7, "erf is not odd at {x}");
                held(x.abs() < 5.0, &[])
            },
        ),
        law(
            "error_function_is_monotone",
            "the points are between -5 and 5",
            cases(6000, 100_000),
            || (-6.0f64..6.0, -9.0f64..0.0).boxed(),
            |(x, e): &(f64, f64)| {
                // Over any step the function moves as its definition does, up to its accuracy.
                let y = x + 10f64.powf(*e);
                let (d, want) = (erf(y) - erf(*x), erf_ref(y) - erf_ref(*x));
                ensure!((d - want).abs() < 6e-7 && d > -6e-7, "erf({y}) - erf({x}) = {d}, expected {want}");
                ensure!((erf(*x) + erfc(*x) - 1.0).abs() < 1e-12, "erf({x}) + erfc({x}) = {}", erf(*x) + erfc(*x));
                held(x.abs() < 5.0, &[])
            },
        ),
        law(
            "linspace",
            "at least two points",
            cases(5000, 80_000),
            || (end(), end(), prop_oneof![60 => size(0, 30_000), 1 => 30_000usize..2_000_000]).boxed(),
            |(a, b, n): &(f64, f64, usize)| {
                let v = take_up_to(linspace(*a, *b, *n), n + 2);
                let tol = 1e-12 * (a.abs() + b.abs());
                same_wave("linspace", &v, *n, |i| a + (b - a) * i as f64 / *n as f64, |_| tol)?;
                held(*n > 1, &[bucket("n", *n)])
            },
        ),
        law(
            "hamming_windows",
            "at least two points",
            cases(3000, 40_000),
            || prop_oneof![60 => size(1, 20_000), 1 => 20_000usize..2_000_000].boxed(),
            |n: &usize| {
                let w = hamming_window(*n);
                let want = |i: usize| 0.54 - 0.46 * (2.0 * PI * i as f64 / *n as f64).cos();
                same_wave("hamming_window", &w, *n, want, |_| 1e-10)?;
                let c = hamming_window_complex(*n);
                same_wave("hamming_window_complex", &c.iter().map(|x| x.re).collect::<Vec<_>>(), *n, want, |_| 1e-10)?;
                ensure!(c.iter().all(|x| x.im == 0.0), "a complex window value is not real");
                ensure!(bit_to_nrz(n % 2 == 0) == if n % 2 == 0 { 1.0 } else { -1.0 }, "bit_to_nrz");
                held(*n > 1, &[bucket("n", *n)])
            },
        ),
    ]
}

fn sigma() -> BoxedStrategy<f64> {
    prop_oneof![3 => 0.01f64..10.0, 1 => prop::sample::select(vec![1.0, 1e-6, 0.5, 100.0, 1e6]), 1 => (-60.0f64..60.0).prop_map(|e| 10f64.powf(e))].boxed()
}

/// No correlation at any lag up to half the length.
fn white(what: &str, x: &[C64], var: f64) -> Result<(), String> {
    let n = x.len();
    let c = correlate_lags(x, x);
    for (lag, v) in c.iter().enumerate().take(n / 2).skip(1) {
        let r = v.norm() / n as f64 / var;
        ensure!(r < 8.0 / (n as f64).sqrt(), "{what}: correlation {r} at lag {lag} over {n} samples");
    }
    Ok(())
}

fn c21() -> Vec<Law> {
    vec![
        law(
            "real_noise",
            "always (20 000 samples or more)",
            cases(400, 6000),
            || (20_000usize..40_000, sigma(), any::<u64>()).boxed(),
            |(n, s, seed): &(usize, f64, u64)| {
                let mut r = Prng(*seed);
                let x: Vec<f64> = (0..*n).map(|_| s * nrz(r.next() & 1 == 1) * 3.0).collect();
                let y = take_up_to(awgn(x.iter().copied(), *s), n + 2);
                ensure!(y.len() == *n, "{} samples for {n}", y.len());
                let noise: Vec<f64> = y.iter().zip(&x).map(|(a, b)| a - b).collect();
                gaussian("awgn", &noise, *s)?;
                uncorrelated("noise and signal", &noise, &x, *s, 3.0 * s)?;
                // Two channels are independent.
                let other: Vec<f64> = awgn(std::iter::repeat(0.0).take(*n), *s).collect();
                uncorrelated("two noise streams", &noise, &other, *s, *s)?;
                held(true, &[])
            },
        ),
        law(
            "complex_noise",
            "always (20 000 samples or more)",
            cases(300, 5000),
            || (20_000usize..30_000, sigma(), any::<u64>()).boxed(),
            |(n, s, seed): &(usize, f64, u64)| {
                let mut r = Prng(*seed);
                let x: Vec<C64> = (0..*n).map(|_| C64::new(nrz(r.next() & 1 == 1), nrz(r.next() & 1 == 1)) * *s).collect();
                let y = take_up_to(awgn_complex(x.iter().copied(), *s), n + 2);
                ensure!(y.len() == *n, "{} samples for {n}", y.len());
                let re: Vec<f64> = y.iter().zip(&x).map(|(a, b)| (a - b).re).collect();
                let im: Vec<f64> = y.iter().zip(&x).map(|(a, b)| (a - b).im).collect();
                gaussian("awgn_complex in phase", &re, *s)?;
                gaussian("awgn_complex quadrature", &im, *s)?;
                uncorrelated("the two axes", &re, &im, *s, *s)?;
                uncorrelated("the axes one sample apart", &re[1..], &im, *s, *s)?;
                uncorrelated("noise and signal", &re, &x.iter().map(|z| z.re).collect::<Vec<_>>(), *s, *s)?;
                held(true, &[])
            },
        ),
        law(
            "no_noise_is_the_identity",
            "at least one sample",
            cases(2000, 20_000),
            || wave(0, 4000),
            |w: &Wave| {
                let x = w.samples();
                let y = take_up_to(awgn(x.iter().copied(), 0.0), x.len() + 2);
                same_wave("awgn(x, 0)", &y, x.len(), |i| x[i], |_| 0.0)?;
                let z: Vec<C64> = x.iter().map(|&v| C64::new(v, -2.0 * v)).collect();
                let y = take_up_to(awgn_complex(z.iter().copied(), 0.0), x.len() + 2);
                ensure!(y == z, "awgn_complex(x, 0) differs from x");
                held(!x.is_empty(), &[bucket("n", x.len())])
            },
        ),
        law(
            "long_noise",
            "always",
            cases(4, 40),
            || (sigma(), any::<u64>()).boxed(),
            |(s, _): &(f64, u64)| {
                let n = 1_000_000;
                let x: Vec<f64> = awgn(std::iter::repeat(0.0).take(n), *s).collect();
                gaussian("awgn", &x, *s)?;
                let z: Vec<C64> = awgn_complex(std::iter::repeat(C64::new(0.0, 0.0)).take(n), *s).collect();
                gaussian("awgn_complex in phase", &z.iter().map(|c| c.re).collect::<Vec<_>>(), *s)?;
                gaussian("awgn_complex quadrature", &z.iter().map(|c| c.im).collect::<Vec<_>>(), *s)?;
                // No short cycle.
                let k = 1 << 16;
                uncorrelated("noise 65536 samples apart", &x[k..], &x, *s, *s)?;
                held(true, &[])
            },
        ),
        law(
            "fresh_noise",
            "draws in two further threads and two further processes were compared",
            cases(1, 10),
            || any::<u64>().boxed(),
            |_: &u64| {
                // Each run of a program, and each of its threads, draws its own noise.
                let mut seen = vec![draw(), draw()];
                for _ in 0..2 {
                    seen.push(std::thread::spawn(draw).join().map_err(|_| "drawing noise in a thread panics")?);
                }
                seen.extend((0..2).filter_map(|_| drawn_elsewhere("metrics")));
                for k in 0..2 {
                    let what = ["awgn", "awgn_complex"][k];
                    for i in 0..seen.len() {
                        for j in 0..i {
                            ensure!(seen[i][k] != seen[j][k], "{what} draws the same noise in two calls, threads or runs: {}", seen[i][k]);
                        }
                    }
                }
                held(seen.len() == 6, &[format!("draws:{}", seen.len())])
            },
        ),
        law(
            "shape_and_tails",
            "always",
            cases(2, 20),
            || (sigma(), 0usize..4, any::<u64>()).boxed(),
            |(s, kind, seed): &(f64, usize, u64)| {
                // The whole histogram, out to 5 sigma, on silence and on signals of several
                // amplitudes, each of which meets the same noise.
                let n = 1 << 23;
                let level = |i: usize| match kind {
                    0 => 0.0,
                    1 => [0.0, 1.0, -30.0, 4.0][i % 4],
                    2 => 3.0 * nrz(seed >> (i % 61) & 1 == 1),
                    _ => [-1.0, 0.5, 10.0, -4.0][i / 1000 % 4],
                };
                let mut by_level: Vec<Shape> = (0..4).map(|_| Shape::new()).collect();
                let mut all = Shape::new();
                for (i, y) in awgn((0..n).map(|i| s * level(i)), *s).enumerate() {
                    let z = y / s - level(i);
                    all.add(z);
                    by_level[if *kind == 3 { i / 1000 % 4 } else { i % 4 }].add(z);
                }
                all.normal("awgn")?;
                for part in &by_level {
                    part.normal("awgn, at one signal level")?;
                }
                let (mut re, mut im, mut across) = (Shape::new(), Shape::new(), Shape::new());
                for (i, y) in awgn_complex((0..n).map(|i| C64::new(s * level(i), s * level(i + 1))), *s).enumerate() {
                    let z = y / s - C64::new(level(i), level(i + 1));
                    re.add(z.re);
                    im.add(z.im);
                    // A rotated axis: the pair is circular, not only each component normal.
                    across.add((z.re + z.im) / 2f64.sqrt());
                }
                re.normal("awgn_complex in phase")?;
                im.normal("awgn_complex quadrature")?;
                across.normal("awgn_complex on the diagonal")?;
                held(true, &[format!("signal:{kind}")])
            },
        ),
        law(
            "noise_never_recurs",
            "always",
            cases(2, 20),
            || (sigma(), any::<u64>()).boxed(),
            |(s, _): &(f64, u64)| {
                // No stretch of noise comes back, at any distance, in one stream or between two:
                // equal values are as rare as for independent draws.
                let n = 1 << 21;
                let mut x: Vec<f64> = awgn(std::iter::repeat(0.0).take(n), *s).collect();
                let z: Vec<C64> = awgn_complex(std::iter::repeat(C64::new(0.0, 0.0)).take(n / 2), *s).collect();
                x.extend(z.iter().flat_map(|c| [c.re, c.im]));
                ensure!(x.iter().all(|v| v.is_finite()), "a noise sample is not finite");
                x.sort_by(f64::total_cmp);
                let again = x.windows(2).filter(|w| w[0] == w[1]).count();
                ensure!(again <= 200, "{again} of {} noise values occur more than once", x.len());
                held(true, &[])
            },
        ),
        law(
            "white_at_every_lag",
            "always",
            cases(4, 60),
            || (sigma(), any::<u64>()).boxed(),
            |(s, seed): &(f64, u64)| {
                let n = 1 << 17;
                let mut r = Prng(*seed);
                let x: Vec<f64> = awgn((0..n).map(|_| s * nrz(r.next() & 1 == 1)), *s).collect();
                let mut r = Prng(*seed);
                let x: Vec<C64> = x.into_iter().map(|v| C64::new((v - s * nrz(r.next() & 1 == 1)) / s, 0.0)).collect();
                white("awgn", &x, 1.0)?;
                let z: Vec<C64> = awgn_complex(std::iter::repeat(C64::new(0.0, 0.0)).take(n), *s).map(|c| c / *s).collect();
                white("awgn_complex", &z, 2.0)?;
                // The pseudo-covariance vanishes as well: the axes are uncorrelated at every lag.
                let cross: Vec<C64> = correlate_lags(&z, &z.iter().map(|c| c.conj()).collect::<Vec<_>>());
                let worst = cross.iter().take(n / 2).map(|c| c.norm()).fold(0.0, f64::max) / n as f64;
                ensure!(worst < 2.0 * 8.0 / (n as f64).sqrt(), "awgn_complex: pseudo-correlation {worst}");
                held(true, &[])
            },
        ),
        law(
            "differs_between_calls",
            "always",
            cases(500, 5000),
            || size(8, 500),
            |n: &usize| {
                let a: Vec<f64> = awgn(std::iter::repeat(0.0).take(*n), 1.0).collect();
                let b: Vec<f64> = awgn(std::iter::repeat(0.0).take(*n), 1.0).collect();
                ensure!(a.iter().zip(&b).all(|(x, y)| x != y), "two calls gave the same noise");
                held(true, &[])
            },
        ),
    ]
}
