//! C30: the root-raised-cosine pulse. C31: the Costas loop. C32: internal helpers and Willie's detectors.
//! C33: the chaos-shift receiver. All are private: the library is built with `--cfg kverif` for this module.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::csk::tx_baseband_csk;
use komunikilo::kverif::*;
use proptest::prelude::*;
use pyo3::prelude::*;
use std::f64::consts::PI;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C30", laws: c30, assumptions: &["positive symbol lengths and sample rates, roll-offs from 0 to 1"] },
        Property { id: "C31", laws: c31, assumptions: &["a phase offset at least 0.15 rad off the quarter turn, where the loop's error is zero"] },
        Property { id: "C33", laws: c33, assumptions: &["noise leaves references alone that lie closer than 1e-9 to each other"] },
        Property { id: "C32", laws: c32, assumptions: &["the scipy of the sandbox for the normality test"] },
    ]
}

// ---- C30 ------------------------------------------------------------------------------------

/// The pulse of unit symbol length at `u` symbols, and how far it can be trusted.
fn rrc(u: f64, b: f64) -> (f64, f64) {
    if u == 0.0 {
        return (1.0 - b + 4.0 * b / PI, 1e-9);
    }
    let x = 4.0 * b * u;
    let d = (1.0 - x) * (1.0 + x);
    if d.abs() < 1e-6 {
        let a = PI / (4.0 * b);
        return (b / 2f64.sqrt() * ((1.0 + 2.0 / PI) * a.sin() + (1.0 - 2.0 / PI) * a.cos()), 2e-5);
    }
    let n = (PI * u * (1.0 - b)).sin() + x * (PI * u * (1.0 + b)).cos();
    // The rounding of u moves the denominator as well, and the numerator by its slope.
    let noise = 1e-14 * (1.0 + u.abs()) * (1.0 + x.abs()) / (PI * u * d).abs() * (1.0 + (1.0 + x.abs()) / d.abs());
    (n / (PI * u * d), 1e-9 + noise)
}

fn rolloff() -> BoxedStrategy<f64> {
    prop_oneof![1 => Just(0.0f64), 1 => Just(1.0), 6 => 0.0f64..1.0, 1 => 0.0f64..0.01, 2 => (1usize..16).prop_map(|k| 1.0 / k as f64)].boxed()
}

fn c30() -> Vec<Law> {
    vec![
        law(
            "taps_are_the_pulse",
            "at least two taps",
            cases(4000, 60_000),
            || {
                let rate = prop_oneof![2 => 0.3f64..40.0, 2 => (1usize..40).prop_map(|n| n as f64), 1 => (1usize..20).prop_map(|k| k as f64 * 4.0)];
                let length = prop_oneof![1 => Just(1.0f64), 3 => (-12.0f64..9.0).prop_map(|e| 10f64.powf(e)), 1 => (-40i32..30).prop_map(|e| 2f64.powi(e))];
                (prop_oneof![10 => 0usize..200, 1 => 200usize..3000], rolloff(), length, rate).boxed()
            },
            |(taps, beta, ts, sps): &(usize, f64, f64, f64)| {
                let fs = sps / ts;
                let h = rrcosfilter(*taps, *beta, *ts, fs);
                ensure!(h.len() == *taps, "{} taps instead of {taps}", h.len());
                let mut limits = 0;
                for (i, v) in h.iter().enumerate() {
                    let u = (i as f64 - *taps as f64 / 2.0) / sps;
                    let (want, tol) = rrc(u, *beta);
                    limits += (((4.0 * beta * u).abs() - 1.0).abs() < 1e-8) as usize;
                    ensure!((v * ts - want).abs() <= tol, "tap {i} of {taps} (at {u} symbols, roll-off {beta}, symbol length {ts}) is {v} instead of {}", want / ts);
                }
                // Even about the middle.
                for i in 1..*taps {
                    let (a, b) = (h[i], h[taps - i]);
                    ensure!((a - b).abs() * ts <= 1e-7, "taps {i} and {} differ: {a} and {b}", taps - i);
                }
                held(*taps > 1, &[bucket("taps", *taps), format!("limits:{}", limits.min(3))])
            },
        ),
        law(
            "a_matched_pair_has_no_intersymbol_interference",
            "always",
            cases(300, 4000),
            || (0.25f64..1.0, 4usize..12, (-12.0f64..9.0).prop_map(|e| 10f64.powf(e)), 20usize..40).boxed(),
            |(beta, sps, ts, span): &(f64, usize, f64, usize)| {
                let fs = *sps as f64 / ts;
                let h = rrcosfilter(2 * span * sps, *beta, *ts, fs);
                for k in 0..10 {
                    // The pulse against itself, k symbols later.
                    let r: f64 = h.iter().zip(&h[k * sps..]).map(|(a, b)| a * b).sum::<f64>() * ts / fs;
                    let want = if k == 0 { 1.0 } else { 0.0 };
                    ensure!((r - want).abs() < 0.01, "roll-off {beta}, {sps} samples per symbol, symbol length {ts}: the matched pair is {r} after {k} symbols");
                }
                held(true, &[format!("sps:{sps}")])
            },
        ),
    ]
}

// ---- C31 ------------------------------------------------------------------------------------

fn locks((gain, phase, half, drift, n, seed): &(f64, f64, bool, f64, usize, u64)) -> Res {
    // BPSK with a phase and a slow frequency offset: derotated up to a half turn.
    let mut r = Prng(*seed);
    let theta = phase + if *half { PI } else { 0.0 };
    let mut pll = CostasLoop::new();
    let warm = 3000;
    let mut sign = 0.0;
    for i in 0..warm + n {
        let b = if r.next() & 1 == 1 { 1.0 } else { -1.0 };
        let y = pll.update(b * C64::from_polar(*gain, theta + drift * i as f64));
        ensure!((y.norm() - gain).abs() < 1e-9, "sample {i} has magnitude {} instead of {gain}", y.norm());
        if i >= warm {
            ensure!(y.im.abs() < 1e-3 * gain, "gain {gain}, phase {theta}, drift {drift}: {y} after {i} samples");
            let s = (y.re * b).signum();
            ensure!(sign == 0.0 || s == sign, "gain {gain}, phase {theta}, drift {drift}: a half turn at sample {i}");
            sign = s;
        }
    }
    // Without drift it settles on the nearer of the two.
    if *drift == 0.0 {
        ensure!(sign == if *half { -1.0 } else { 1.0 }, "gain {gain}, phase {theta}: settled on {sign}");
    }
    held(true, &[bucket("bits", *n), format!("drift:{}", *drift != 0.0)])
}

fn c31() -> Vec<Law> {
    vec![
        law(
            "the_loop_locks",
            "at least 16 bits after locking",
            cases(400, 6000),
            || (0.5f64..1.5, -1.42f64..1.42, any::<bool>(), prop_oneof![1 => Just(0.0f64), 2 => -0.004f64..0.004], 16usize..400, any::<u64>()).boxed(),
            locks,
        ),
        law(
            "the_lock_holds",
            "at least 16 bits after locking",
            cases(6, 60),
            // The phase goes round hundreds of times.
            || (0.5f64..1.5, -1.42f64..1.42, any::<bool>(), -0.004f64..0.004, 100_000usize..1_000_000, any::<u64>()).boxed(),
            locks,
        ),
        law(
            "outputs_are_rotated_inputs",
            "at least two samples",
            cases(4000, 60_000),
            || (prop_oneof![10 => 0usize..60, 1 => 0usize..3000], -6.0f64..0.0, any::<u64>()).boxed(),
            |(n, level, seed): &(usize, f64, u64)| {
                let mut r = Prng(*seed);
                let x: Vec<C64> = (0..*n).map(|_| C64::new(r.gauss(), r.gauss()) * 10f64.powf(*level)).collect();
                let run = |f: &dyn Fn(C64) -> C64| {
                    let mut pll = CostasLoop::new();
                    x.iter().map(|z| f(pll.update(f(*z)))).collect::<Vec<C64>>()
                };
                let y = run(&|z| z);
                for i in 0..*n {
                    ensure!((y[i].norm() - x[i].norm()).abs() <= 1e-9 * x[i].norm(), "sample {i}: {} became {}", x[i], y[i]);
                }
                ensure!(*n == 0 || (y[0] - x[0]).norm() <= 1e-12 * x[0].norm(), "the first sample {} became {}", x[0], y[0]);
                // A half turn of the input passes through; a mirror image is tracked the other way.
                for (what, z) in [("half turn", run(&|z| -z)), ("mirror image", run(&|z| z.conj()))] {
                    let at = (0..(*n).min(60)).find(|&i| (z[i] - y[i]).norm() > 1e-6 * x[i].norm());
                    ensure!(at.is_none(), "{what}: sample {at:?}");
                }
                // Two loops do not share their state.
                let (mut a, mut b) = (CostasLoop::new(), CostasLoop::new());
                for i in 0..*n {
                    b.update(x[*n - 1 - i] * 0.5);
                    ensure!(a.update(x[i]) == y[i], "sample {i} changes with another loop running");
                }
                held(*n > 1, &[bucket("samples", *n)])
            },
        ),
    ]
}

// ---- C32 ------------------------------------------------------------------------------------

fn c32() -> Vec<Law> {
    vec![
        law(
            "bits_and_bytes",
            "at least one bit",
            cases(4000, 60_000),
            || (prop_oneof![20 => msg_in(0, 100), 1 => msg_in(0, 3000)], proptest::collection::vec(any::<u8>(), 0..40)).boxed(),
            |(m, bytes): &(Msg, Vec<u8>)| {
                let bits = m.bits();
                let packed = take_up_to(bits_to_bytes(bits.iter().copied()), bits.len() + 2);
                let want: Vec<u8> = (0..bits.len().div_ceil(8)).map(|k| (0..8).filter(|i| bits.get(8 * k + i) == Some(&true)).map(|i| 1u8 << i).sum()).collect();
                ensure!(packed == want, "{} is packed into {packed:?} instead of {want:?}", bits_to_string(&bits));
                let back = take_up_to(bytes_to_bits(bytes.iter().copied()), 8 * bytes.len() + 2);
                let want: Vec<bool> = bytes.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect();
                ensure!(back == want, "{bytes:?} is unpacked into {}", bits_to_string(&back));
                held(!bits.is_empty(), &[bucket("bits", bits.len())])
            },
        ),
        law(
            "shifts",
            "at least two items",
            cases(2000, 30_000),
            || (prop_oneof![20 => 0usize..100, 1 => 0usize..5000], any::<u64>()).boxed(),
            |(n, seed): &(usize, u64)| {
                let mut r = Prng(*seed);
                let x: Vec<u32> = (0..*n).map(|_| r.next() as u32).collect();
                // Item 0, the zero frequency, moves to the middle, n / 2.
                let want: Vec<u32> = (0..*n).map(|i| x[(i + n - n / 2) % n]).collect();
                let got = fftshift(&x);
                ensure!(got == want, "fftshift({x:?}) = {got:?}");
                let mut got = x.clone();
                fftshift_mut(&mut got);
                ensure!(got == want, "fftshift_mut({x:?}) = {got:?}");
                let back = ifftshift(&want);
                ensure!(back == x, "ifftshift({want:?}) = {back:?}");
                held(*n > 1, &[bucket("items", *n), format!("odd:{}", n % 2)])
            },
        ),
        law(
            "not_a_number",
            "at least one value",
            cases(2000, 30_000),
            || (prop_oneof![20 => 0usize..30, 1 => 0usize..3000], prop_oneof![2 => Just(0u8), 1 => 1u8..4], any::<bool>(), any::<u64>()).boxed(),
            |(n, bad, im, seed): &(usize, u8, bool, u64)| {
                let mut r = Prng(*seed);
                let mut value = || match r.below(6) {
                    0 => 0.0,
                    1 => f64::MAX * r.range(-1.0, 1.0),
                    2 => f64::MIN_POSITIVE * r.range(-1.0, 1.0),
                    _ => r.range(-10.0, 10.0),
                };
                let mut z: Vec<C64> = (0..*n).map(|_| C64::new(value(), value())).collect();
                let spoil = [0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY][*bad as usize];
                let broken = *n > 0 && *bad > 0;
                if broken {
                    let k = r.below(*n);
                    if *im { z[k].im = spoil } else { z[k].re = spoil }
                }
                ensure!(no_complex_nans(&z) == !broken, "no_nans of {z:?} is {broken}");
                let re: Vec<f64> = z.iter().map(|z| if *im { z.im } else { z.re }).collect();
                ensure!(no_nans(&re) == !broken, "no_nans of {re:?} is {broken}");
                held(*n > 0, &[format!("bad:{bad}"), format!("broken:{broken}")])
            },
        ),
        law(
            "willie_energy_detector",
            "always",
            cases(2000, 30_000),
            || (1usize..3000, -100.0f64..100.0, prop_oneof![Just(1.0 + 1e-6), Just(1.0 - 1e-6), 0.01f64..100.0], any::<u64>()).boxed(),
            |(n, level, ratio, seed): &(usize, f64, f64, u64)| {
                let mut r = Prng(*seed);
                let x: Vec<f64> = (0..*n).map(|_| r.gauss() * 10f64.powf(*level)).collect();
                let rms = (x.iter().map(|v| v * v).sum::<f64>() / *n as f64).sqrt();
                if (ratio - 1.0).abs() < 1e-7 || rms == 0.0 {
                    return trivial();
                }
                let got = willie_energy(&x, rms * ratio);
                ensure!(got == (*ratio < 1.0), "{n} samples of RMS {rms} against {}: {got}", rms * ratio);
                held(true, &[format!("above:{got}")])
            },
        ),
        law(
            "willie_normality_detector",
            "always",
            serial(200, 3000),
            || (20usize..400, 0.0f64..3.0, 1e-4f64..0.9, any::<u64>()).boxed(),
            |(n, odd, alpha, seed): &(usize, f64, f64, u64)| {
                // Noise, less and less of it: scipy's p-value above the level.
                let mut r = Prng(*seed);
                let x: Vec<f64> = (0..*n).map(|i| r.gauss() + odd * (i % 2) as f64).collect();
                let p = Python::with_gil(|py| {
                    py.import_bound("scipy.stats")?.getattr("normaltest")?.call1((x.clone(),))?.getattr("pvalue")?.extract::<f64>()
                })
                .map_err(|e| format!("scipy: {e}"))?;
                if (p - alpha).abs() < 1e-9 {
                    return trivial();
                }
                let got = willie_normal(&x, *alpha);
                ensure!(got == (p > *alpha), "a p-value of {p} at level {alpha}: {got}");
                held(true, &[format!("normal:{got}")])
            },
        ),
    ]
}

// ---- C33 ------------------------------------------------------------------------------------

/// The two chaotic references, as the transmitter sends them.
fn references(n: usize) -> (Vec<f64>, Vec<f64>) {
    (take_up_to(tx_baseband_csk(vec![true; n].into_iter()), n + 1), take_up_to(tx_baseband_csk(vec![false; n].into_iter()), n + 1))
}

fn c33() -> Vec<Law> {
    let message = || prop_oneof![20 => msg_in(0, 200), 1 => msg_in(0, 20_000)];
    vec![
        law(
            "sent_bits_come_back",
            "at least one bit",
            cases(1500, 20_000),
            move || (message(), 0.0f64..0.999, any::<u64>()).boxed(),
            |(m, noise, seed): &(Msg, f64, u64)| {
                // Each sample may move by less than half the distance of its references.
                let bits = m.bits();
                let mut r = Prng(*seed);
                let (one, zero) = references(bits.len());
                let tx = take_up_to(tx_baseband_csk(bits.iter().copied()), bits.len() + 1);
                let moved: Vec<f64> = tx.iter().zip(one.iter().zip(&zero)).map(|(x, (a, b))| x + noise * r.range(-0.5, 0.5) * (a - b).abs()).collect();
                let clear = |i: usize| (one[i] - zero[i]).abs() > 1e-9;
                for (what, signal) in [("clean", tx), ("noisy", moved)] {
                    let rx = take_up_to(rx_baseband_csk(signal.into_iter()), bits.len() + 1);
                    same_bits_where(what, &rx, &bits, clear)?;
                }
                held(!bits.is_empty(), &[bucket("bits", bits.len())])
            },
        ),
        law(
            "the_nearer_reference_decides",
            "at least one sample",
            cases(1500, 20_000),
            || (prop_oneof![20 => 0usize..200, 1 => 0usize..20_000], -12.0f64..12.0, any::<u64>()).boxed(),
            |(n, level, seed): &(usize, f64, u64)| {
                let mut r = Prng(*seed);
                let (one, zero) = references(*n);
                let x: Vec<f64> = (0..*n).map(|i| r.gauss() * 10f64.powf(*level) + if r.next() & 1 == 1 { one[i] } else { 0.5 }).collect();
                let want: Vec<bool> = (0..*n).map(|i| (x[i] - one[i]).abs() < (x[i] - zero[i]).abs()).collect();
                let sure = |i: usize| ((x[i] - one[i]).abs() - (x[i] - zero[i]).abs()).abs() > 1e-9 * (1.0 + x[i].abs());
                let rx = take_up_to(rx_baseband_csk(x.iter().copied()), n + 1);
                let m = same_bits_where("arbitrary samples", &rx, &want, sure)?;
                held(m > 0, &[bucket("samples", *n)])
            },
        ),
    ]
}
