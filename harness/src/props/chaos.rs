//! C15: chaos shift keying. C17: chaotic maps.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::chaos::*;
use komunikilo::csk::*;
use komunikilo::dcsk::*;
use proptest::prelude::*;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C15", laws: c15, assumptions: &["chaotic orbits are checked step by step (each value against the map of the previous one), so the way the map is rounded does not matter"] },
        Property { id: "C17", laws: c17, assumptions: &["parameters in the chaotic/invariant range: 0 <= mu <= 4 for the logistic map"] },
    ]
}

fn orbit(what: &str, xs: &[f64], x0: f64, f: impl Fn(f64) -> f64) -> Result<(), String> {
    let mut prev = x0;
    for (i, &x) in xs.iter().enumerate() {
        ensure!((x - f(prev)).abs() <= 1e-12, "{what}: value {i} is {x}, the map of {prev} is {}", f(prev));
        prev = x;
    }
    Ok(())
}

fn logistic(x: f64) -> f64 {
    3.9 * x * (1.0 - x)
}

fn csk_of(bits: Vec<bool>) -> Result<Vec<f64>, String> {
    let n = bits.len();
    let v = take_up_to(tx_baseband_csk(bits.into_iter()), n + 2);
    ensure!(v.len() == n, "{} CSK samples for {n} bits", v.len());
    Ok(v)
}

fn csk(bits: &[bool]) -> Res {
    let n = bits.len();
    let one = csk_of(vec![true; n])?;
    let zero = csk_of(vec![false; n])?;
    orbit("CSK reference for 1", &one, 0.1, logistic)?;
    orbit("CSK reference for 0", &zero, 0.15, logistic)?;
    let tx = csk_of(bits.to_vec())?;
    let mut told = 0;
    for i in 0..n {
        let (a, b) = if bits[i] { (one[i], zero[i]) } else { (zero[i], one[i]) };
        ensure!((tx[i] - a).abs() <= 1e-12, "sample {i} is {}, the reference of its bit is {a}", tx[i]);
        ensure!((0.0..=1.0).contains(&tx[i]), "sample {i} is {}", tx[i]);
        // A receiver with both references picks the nearer one.
        if (a - b).abs() > 1e-9 {
            told += 1;
            ensure!((tx[i] - a).abs() < (tx[i] - b).abs(), "bit {i} decodes wrong");
        }
    }
    ensure!(told + 1 + n / 1000 >= n, "the two references coincide in {} of {n} samples", n - told);
    held(n > 0, &[bucket("bits", n)])
}

fn dcsk_tx(bits: &[bool]) -> Result<Vec<f64>, String> {
    let n = bits.len();
    let v = take_up_to(tx_baseband_dcsk(bits.iter().copied()), 2 * n + 3);
    ensure!(v.len() == 2 * n, "{} DCSK samples for {n} bits", v.len());
    Ok(v)
}

fn dcsk(bits: &[bool], gain: f64) -> Res {
    let tx = dcsk_tx(bits)?;
    let refs: Vec<f64> = tx.iter().step_by(2).copied().collect();
    orbit("DCSK reference", &refs, 0.1, logistic)?;
    for (i, p) in tx.chunks(2).enumerate() {
        ensure!((p[1] - nrz(bits[i]) * p[0]).abs() <= 1e-15, "pair {i} is {p:?} for a {}", bits[i]);
    }
    let n = bits.len();
    // Any non-zero gain of either sign.
    for g in [gain, -gain] {
        let rx = take_up_to(rx_baseband_dcsk(tx.iter().map(|x| x * g)), n + 2);
        same_bits(&format!("DCSK loopback, gain {g}"), &rx, bits)?;
    }
    held(n > 0, &[bucket("bits", n)])
}

fn c15() -> Vec<Law> {
    vec![
        law("csk_waveform", "at least one bit was sent", cases(4000, 60_000), || msg(6000), |m: &Msg| csk(&m.bits())),
        law(
            "csk_long",
            "always",
            cases(10, 80),
            || (any::<u64>(), soak_len(400_000)).boxed(),
            |(seed, n): &(u64, usize)| csk(&Msg::Gen { len: *n, seed: *seed, pattern: 9 }.bits()),
        ),
        law("dcsk_link", "at least one bit was sent", cases(4000, 60_000), || (msg(6000), gain()).boxed(), |(m, g): &(Msg, f64)| dcsk(&m.bits(), *g)),
        law(
            "dcsk_long",
            "always",
            cases(10, 80),
            || (any::<u64>(), soak_len(400_000)).boxed(),
            |(seed, n): &(u64, usize)| dcsk(&Msg::Gen { len: *n, seed: *seed, pattern: 9 }.bits(), if seed % 3 == 0 { 1e-20 } else { 1.0 }),
        ),
        law(
            "dcsk_receiver_correlates",
            "at least one pair with a non-zero product",
            cases(4000, 60_000),
            || recv_wave(0, 5000),
            |w: &Wave| {
                let s = w.samples();
                let rx = take_up_to(rx_baseband_dcsk(s.iter().copied()), s.len() / 2 + 2);
                let want: Vec<bool> = s.chunks_exact(2).map(|p| p[0] * p[1] > 0.0).collect();
                let m = same_bits_where("DCSK decisions", &rx, &want, |i| (s[2 * i] * s[2 * i + 1]).abs() > 1e-300)?;
                held(m > 0, &[bucket("samples", s.len()), format!("odd:{}", s.len() % 2)])
            },
        ),
        law(
            "dcsk_survives_fading",
            "at least one bit was sent",
            cases(2000, 30_000),
            || (msg(3000), any::<u64>()).boxed(),
            |(m, seed): &(Msg, u64)| {
                // A gain that changes from bit to bit, and a perturbation smaller than each sample.
                let bits = m.bits();
                let mut r = Prng(*seed);
                let deep = [0.0, 1.0, 10.0, 100.0][r.below(4)];
                let s: Vec<f64> = dcsk_tx(&bits)?
                    .chunks(2)
                    .flat_map(|p| {
                        let g = r.range(0.1, 5.0) * nrz(r.next() & 1 == 1) * 10f64.powf(deep * r.range(-1.0, 1.0));
                        [g * p[0] * r.range(0.1, 1.9), g * p[1] * r.range(0.1, 1.9)]
                    })
                    .collect();
                let rx = take_up_to(rx_baseband_dcsk(s.into_iter()), bits.len() + 2);
                same_bits("faded DCSK", &rx, &bits)?;
                held(!bits.is_empty(), &[bucket("bits", bits.len())])
            },
        ),
    ]
}

fn c17() -> Vec<Law> {
    vec![
        law(
            "logistic_map",
            "mu > 0 and x0 in (0, 1)",
            cases(4000, 60_000),
            || (prop_oneof![3 => 0.0f64..=4.0, 1 => prop::sample::select(vec![0.0, 1.0, 3.5, 3.9, 3.99, 4.0])], prop_oneof![4 => 0.0f64..=1.0, 1 => prop::sample::select(vec![0.0, 0.1, 0.15, 0.5, 1.0])], size(0, 3000)).boxed(),
            |(mu, x0, n): &(f64, f64, usize)| {
                ensure!((logistic_map(*mu, *x0) - mu * x0 * (1.0 - x0)).abs() < 1e-14, "logistic_map({mu}, {x0})");
                let v: Vec<f64> = LogisticMap::new(*mu, *x0).take(*n).collect();
                ensure!(v.len() == *n, "the iterator stopped after {} values", v.len());
                orbit("logistic map", &v, *x0, |x| mu * x * (1.0 - x))?;
                for (i, x) in v.iter().enumerate() {
                    ensure!((-1e-12..=1.0 + 1e-12).contains(x), "value {i} is {x}");
                }
                held(*mu > 0.0 && *x0 > 0.0 && *x0 < 1.0, &[bucket("n", *n)])
            },
        ),
        law(
            "chebyshev_map",
            "0 < |x0| < 1",
            cases(4000, 60_000),
            || (prop_oneof![4 => -1.0f64..=1.0, 1 => prop::sample::select(vec![-1.0, -0.5, 0.0, 0.1, 0.5, 1.0])], size(0, 3000)).boxed(),
            |(x0, n): &(f64, usize)| {
                let v: Vec<f64> = Chebyshev::new(*x0).take(*n).collect();
                ensure!(v.len() == *n, "the iterator stopped after {} values", v.len());
                orbit("Chebyshev map", &v, *x0, |x| 1.0 - 2.0 * x * x)?;
                for (i, x) in v.iter().enumerate() {
                    ensure!((-1.0 - 1e-12..=1.0 + 1e-12).contains(x), "value {i} is {x}");
                }
                // Conjugate to angle doubling.
                let th = x0.acos();
                ensure!((chebyshev(*x0) + (2.0 * th).cos()).abs() < 1e-12, "chebyshev({x0})");
                held(x0.abs() < 1.0 && *x0 != 0.0, &[bucket("n", *n)])
            },
        ),
        law(
            "long_orbits_stay_in_range",
            "always",
            cases(16, 200),
            || (0.01f64..0.99, 3.6f64..4.0, soak_len(800_000)).boxed(),
            |(x0, mu, n): &(f64, f64, usize)| {
                let mut prev = *x0;
                for (i, x) in LogisticMap::new(*mu, *x0).take(*n).enumerate() {
                    ensure!((-1e-12..=1.0 + 1e-12).contains(&x) && (x - mu * prev * (1.0 - prev)).abs() < 1e-12, "logistic value {i} is {x} after {prev}");
                    prev = x;
                }
                prev = *x0;
                for (i, x) in Chebyshev::new(*x0).take(*n).enumerate() {
                    ensure!((-1.0 - 1e-12..=1.0 + 1e-12).contains(&x) && (x - (1.0 - 2.0 * prev * prev)).abs() < 1e-12, "Chebyshev value {i} is {x} after {prev}");
                    prev = x;
                }
                held(true, &[])
            },
        ),
        law(
            "settled_orbits_stay_settled",
            "always",
            cases(60, 600),
            || (0usize..9, 1usize..3000).boxed(),
            |&(which, n): &(usize, usize)| {
                // On these starts the maps are exact: fixed points, and orbits that fall on one.
                let x0 = [0.0, 1.0, -1.0, 0.5, -0.5, -0.0, 0.25, 0.75, 0.5][which];
                let mut want = x0;
                if ![0.25, 0.75].contains(&x0) {
                    for (i, x) in Chebyshev::new(x0).take(n).enumerate() {
                        want = 1.0 - 2.0 * want * want;
                        ensure!(x == want, "Chebyshev value {i} from {x0} is {x} and not {want}");
                    }
                }
                if x0 >= 0.0 {
                    for (mu, fixed) in [(4.0, 0.75), (2.0, 0.5), (1.0, 0.0), (0.0, 0.0)] {
                        let exact = x0 == fixed || [0.0, 1.0].contains(&x0) || (x0 == 0.5 && mu != 1.0) || mu == 0.0 || (mu == 4.0 && x0 == 0.25);
                        if !exact {
                            continue;
                        }
                        want = x0;
                        for (i, x) in LogisticMap::new(mu, x0).take(n).enumerate() {
                            want = mu * want * (1.0 - want);
                            ensure!(x == want, "logistic value {i} from {x0} with mu {mu} is {x} and not {want}");
                        }
                    }
                }
                held(true, &[format!("from:{x0}")])
            },
        ),
        law(
            "orbits_are_chaotic",
            "always",
            cases(300, 3000),
            || (0.02f64..0.98, prop::sample::select(vec![3.9f64, 3.99, 4.0])).boxed(),
            |(x0, mu): &(f64, f64)| {
                // Nearby starts separate, and the same start gives the same orbit.
                let mu = *mu;
                let far = |a: Vec<f64>, b: Vec<f64>| a.iter().zip(&b).any(|(x, y)| (x - y).abs() > 0.1);
                let l = |x| LogisticMap::new(mu, x).take(400).collect::<Vec<f64>>();
                let c = |x| Chebyshev::new(x).take(400).collect::<Vec<f64>>();
                ensure!(l(*x0) == l(*x0) && c(*x0) == c(*x0), "an orbit is not reproducible");
                ensure!(far(l(*x0), l(x0 + 1e-9)), "logistic orbits of mu {mu} do not separate");
                ensure!(far(c(*x0), c(x0 + 1e-9)), "Chebyshev orbits do not separate");
                held(true, &[])
            },
        ),
        law(
            "tent_and_bernoulli_maps",
            "x0 strictly inside (-1, 1)",
            cases(4000, 60_000),
            || (0.0f64..=1.0, prop_oneof![6 => -1.0f64..=1.0, 1 => prop::sample::select(vec![-1.0, 0.0, 1.0])]).boxed(),
            |(mu, x): &(f64, f64)| {
                let t = tent_map(*mu, *x);
                ensure!((t - (2.0 * mu * (1.0 - x.abs()) - 1.0)).abs() < 1e-14, "tent_map({mu}, {x}) = {t}");
                ensure!((-1.0 - 1e-12..=1.0 + 1e-12).contains(&t), "tent_map({mu}, {x}) = {t}");
                let m = 2.0 * mu;
                let b = bernoulli_map(m, *x);
                let want = if *x < 0.0 { m * x + 1.0 } else { m * x - 1.0 };
                ensure!((b - want).abs() < 1e-14, "bernoulli_map({m}, {x}) = {b}");
                ensure!((-1.0 - 1e-12..=1.0 + 1e-12).contains(&b), "bernoulli_map({m}, {x}) = {b}");
                held(x.abs() < 1.0, &[])
            },
        ),
    ]
}
