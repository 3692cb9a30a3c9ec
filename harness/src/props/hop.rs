//! C12: frequency-hopped BPSK. C13: chirps and frequency-hopped CSS.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::fh::*;
use komunikilo::fh_css::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C12", laws: c12, assumptions: &["hop frequencies that give the same symbol waveform (aliases, coincident frequencies) are not told apart"] },
        Property { id: "C13", laws: c13, assumptions: &["a whole number of samples per chirp"] },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hopped {
    h: HopSpec,
    msg: Msg,
    gain: f64,
}

fn hopped(lo: usize, hi: usize, budget: usize) -> BoxedStrategy<Hopped> {
    (HopSpec::strategy(lo, hi), msg(4000), gain())
        .prop_map(move |(h, m, gain)| Hopped { msg: fit(m, h.sps, budget), h, gain })
        .boxed()
}

/// Which waveforms of `table` the symbol equals (up to `tol`).
fn matches(sym: &[f64], table: &[Vec<f64>], tol: f64) -> Vec<usize> {
    (0..table.len())
        .filter(|&f| sym.iter().zip(&table[f]).all(|(a, b)| (a - b).abs() <= tol))
        .collect()
}

/// Every block of `num` symbols uses every frequency at most once (where they can be told apart).
fn no_repeats(matched: &[Option<usize>], num: usize) -> Result<(), String> {
    for (k, block) in matched.chunks(num).enumerate() {
        let mut seen = vec![false; num];
        for f in block.iter().flatten() {
            ensure!(!seen[*f], "block {k} uses hop frequency {f} twice");
            seen[*f] = true;
        }
    }
    Ok(())
}

fn fhb(c: &HopSpec, bits: &[bool]) -> Result<Vec<f64>, String> {
    let n = bits.len() * c.sps;
    let tx = take_up_to(tx_fh_bpsk_signal(bits.iter().copied(), c.low(), c.high(), c.num, c.fs(), c.sr), n + c.sps + 1);
    ensure!(tx.len() == n, "{} samples for {} bits", tx.len(), bits.len());
    Ok(tx)
}

fn chirp_ref(f0: f64, f1: f64, fs: usize, n: usize) -> Vec<f64> {
    let t = n as f64 / fs as f64;
    let k = (f1 - f0) / t;
    (0..n)
        .map(|i| {
            let ti = i as f64 / fs as f64;
            let cyc = (f0 + k * ti / 2.0) * ti;
            (2.0 * PI * (cyc - cyc.floor())).cos()
        })
        .collect()
}

fn fh_loop(c: &Hopped) -> Res {
    let (h, bits) = (&c.h, c.msg.bits());
    let tx = fhb(h, &bits)?;
    // The all-ones transmission is the hopped carrier itself.
    let carrier = fhb(h, &vec![true; bits.len()])?;
    for i in 0..tx.len() {
        let w = nrz(bits[i / h.sps]) * carrier[i];
        ensure!((tx[i] - w).abs() < 1e-9, "sample {i} depends on other bits: {} vs {w}", tx[i]);
    }
    let sure: Vec<bool> = carrier.chunks(h.sps).map(|s| s.iter().map(|x| x * x).sum::<f64>() > 1e-6 * h.sps as f64).collect();
    let rx = take_up_to(rx_fh_bpsk_signal(tx.iter().map(|s| s * c.gain), h.low(), h.high(), h.num, h.fs(), h.sr), bits.len() + 2);
    let m = same_bits_where("FH-BPSK loopback", &rx, &bits, |i| sure[i])?;
    held(m > 0, &[bucket("bits", bits.len()), bucket("freqs", h.num), bucket("sps", h.sps)])
}

/// Many short symbols.
fn hop_soak(lo: usize, hi: usize, total: BoxedStrategy<usize>) -> BoxedStrategy<Hopped> {
    (HopSpec::strategy(lo, hi), any::<u64>(), gain(), total)
        .prop_map(move |(h, seed, gain, total)| Hopped { msg: Msg::Gen { len: total / h.sps, seed, pattern: 9 }, h, gain })
        .boxed()
}

fn hop_pattern(c: &Hopped) -> Res {
        let (h, bits) = (&c.h, c.msg.bits());
        let tx = fhb(h, &bits)?;
        let fs = h.fs();
        let table: Vec<Vec<f64>> = h.freqs().iter().map(|&f| (0..h.sps).map(|i| ccos(f, i, fs)).collect()).collect();
        let mut matched = Vec::new();
        for (k, s) in tx.chunks(h.sps).enumerate() {
            let up: Vec<f64> = s.iter().map(|x| x * nrz(bits[k])).collect();
            let fits = matches(&up, &table, 1e-6);
            ensure!(!fits.is_empty(), "symbol {k} is on none of the {} hop frequencies", h.num);
            matched.push(if fits.len() == 1 { Some(fits[0]) } else { None });
        }
        no_repeats(&matched, h.num)?;
        let whole = matched.len() >= h.num && matched[..h.num].iter().all(|m| m.is_some());
        held(whole, &[bucket("freqs", h.num), bucket("symbols", matched.len())])
    }

fn c12() -> Vec<Law> {
    vec![
        law("fh_bpsk_loopback", "at least one bit with carrier energy was sent and compared", cases(4000, 80_000), || hopped(1, 200, 12_000), fh_loop),
        law(
            "fh_bpsk_long",
            "as fh_bpsk_loopback",
            cases(12, 150),
            || hop_soak(1, 64, soak_len(1_200_000)),
            fh_loop,
        ),
        law(
            "hop_pattern",
            "a whole block of hops was told apart",
            cases(2500, 40_000),
            || hopped(8, 120, 20_000),
            hop_pattern,
        ),
        law("hop_pattern_long", "as hop_pattern", cases(4, 60), || hop_soak(8, 16, Just(1_000_000usize).boxed()), hop_pattern),
        law(
            "hops_spread",
            "at least 4 frequencies over at least 40 blocks",
            cases(200, 2000),
            || (4usize..40, 40usize..80).boxed(),
            |(num, blocks): &(usize, usize)| {
                // The pattern is reshuffled: blocks are not all alike, and consecutive blocks differ.
                let h = HopSpec { sps: 400, sr: 1, lo: 0.05, hi: 0.95, num: *num };
                let bits = vec![true; num * blocks];
                let tx = fhb(&h, &bits)?;
                let table: Vec<Vec<f64>> = h.freqs().iter().map(|&f| (0..h.sps).map(|i| ccos(f, i, h.fs())).collect()).collect();
                let order: Vec<usize> = tx
                    .chunks(h.sps)
                    .map(|s| matches(s, &table, 1e-6).first().copied().unwrap_or(usize::MAX))
                    .collect();
                let b: Vec<&[usize]> = order.chunks(*num).collect();
                let same = b.windows(2).filter(|w| w[0] == w[1]).count();
                ensure!(same <= blocks / 4, "{same} of {blocks} blocks repeat the previous hop order");
                held(true, &[bucket("freqs", *num)])
            },
        ),
        law(
            "fh_receiver_correlates",
            "at least one decision away from the threshold was compared",
            cases(3000, 50_000),
            || (HopSpec::strategy(1, 100), recv_wave(0, 6000)).boxed(),
            fh_recv,
        ),
        law(
            "double_mixing",
            "a whole block of hops was told apart",
            cases(2000, 30_000),
            || (hopped(8, 120, 20_000), 0.0f64..1.0).boxed(),
            |(c, u): &(Hopped, f64)| {
                // The older transmitter: bit times carrier times hopped tone, in the time of the
                // whole signal.
                let (h, bits, fs) = (&c.h, c.msg.bits(), c.h.fs());
                let fc = u * (fs / 2) as f64;
                let n = bits.len() * h.sps;
                let tx = take_up_to(tx_fh_bpsk_signal_old(bits.iter().copied(), h.low(), h.high(), h.num, fs, h.sr, fc), n + h.sps + 1);
                ensure!(tx.len() == n, "{} samples for {} bits", tx.len(), bits.len());
                let freqs = h.freqs();
                let mut matched = Vec::new();
                for (k, s) in tx.chunks(h.sps).enumerate() {
                    let at = k * h.sps;
                    let fits: Vec<usize> = (0..h.num)
                        .filter(|&f| {
                            s.iter().enumerate().all(|(i, x)| {
                                let n = at + i;
                                (x - nrz(bits[k]) * ccos(fc, n, fs) * ccos(freqs[f], n, fs)).abs() <= wtol(fc, n, fs) + wtol(freqs[f], n, fs)
                            })
                        })
                        .collect();
                    ensure!(!fits.is_empty(), "symbol {k} is the product of its bit, the carrier and a tone for none of the {} hop frequencies", h.num);
                    matched.push(if fits.len() == 1 { Some(fits[0]) } else { None });
                }
                no_repeats(&matched, h.num)?;
                let whole = matched.len() >= h.num && matched[..h.num].iter().all(|m| m.is_some());
                held(whole, &[bucket("freqs", h.num), bucket("symbols", matched.len())])
            },
        ),
        law("fh_receiver_long", "as fh_receiver_correlates", cases(6, 80), || (HopSpec::strategy(1, 100), long_wave(1_000_000)).boxed(), fh_recv),
    ]
}

fn fh_recv((h, w): &(HopSpec, Wave)) -> Res {
    let s = w.samples();
    let n = s.len() / h.sps;
    let carrier = fhb(h, &vec![true; n])?;
    let cor: Vec<(f64, f64)> = (0..n)
        .map(|k| {
            let mut a = (0.0, 0.0);
            for i in k * h.sps..(k + 1) * h.sps {
                a.0 += s[i] * carrier[i];
                a.1 += s[i].abs();
            }
            a
        })
        .collect();
    let want: Vec<bool> = cor.iter().map(|x| x.0 > 0.0).collect();
    let rx = take_up_to(rx_fh_bpsk_signal(s.iter().copied(), h.low(), h.high(), h.num, h.fs(), h.sr), n + 2);
    let m = same_bits_where("FH-BPSK decisions", &rx, &want, |i| cor[i].0.abs() > 1e-7 * cor[i].1 && cor[i].1 > 1e-250)?;
    held(m > 0, &[bucket("symbols", n), format!("partial_tail:{}", s.len() % h.sps != 0)])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chirp {
    n: usize,
    rate: usize,
    f0: f64,
    f1: f64,
}

fn chirp_case() -> BoxedStrategy<Chirp> {
    (prop_oneof![60 => size(1, 20_000), 1 => 20_000usize..1_500_000], symbol_rate(), -1.0f64..1.0, -1.0f64..1.0, 0u8..6)
        .prop_map(|(n, rate, a, b, e)| {
            let nyq = (n * rate) as f64 / 2.0;
            let (f0, f1) = match e {
                0 => (0.0, b.abs()),
                1 => (a.abs(), 0.0),
                2 => (a.abs(), a.abs()),
                3 => (a, b),
                _ => (a.abs(), b.abs()),
            };
            Chirp { n, rate, f0: f0 * nyq, f1: f1 * nyq }
        })
        .boxed()
}

fn same_chirp(what: &str, got: Vec<f64>, f0: f64, f1: f64, fs: usize, n: usize) -> Result<(), String> {
    let want = chirp_ref(f0, f1, fs, n);
    let top = f0.abs().max(f1.abs());
    same_wave(what, &got, n, |i| want[i], |i| 1e-6 + 4.0 * wtol(top, i, fs))
}

fn css_symbols(c: &Hopped) -> Res {
        let (h, bits) = (&c.h, c.msg.bits());
        let (fs, sps) = (h.fs(), h.sps);
        let n = bits.len() * sps;
        let tx = take_up_to(tx_fh_css_signal(bits.iter().copied(), fs, h.sr, h.low(), h.high(), h.num), n + sps + 1);
        ensure!(tx.len() == n, "{} samples for {} bits", tx.len(), bits.len());
        let bw = (h.high() - h.low()) / h.num as f64;
        let f = h.freqs();
        let up: Vec<Vec<f64>> = f.iter().map(|f| chirp_ref(f - bw / 2.0, f + bw / 2.0, fs, sps)).collect();
        let down: Vec<Vec<f64>> = f.iter().map(|f| chirp_ref(f + bw / 2.0, f - bw / 2.0, fs, sps)).collect();
        let mut matched = Vec::new();
        for (k, s) in tx.chunks(sps).enumerate() {
            let fits = matches(s, if bits[k] { &up } else { &down }, 1e-6);
            ensure!(!fits.is_empty(), "symbol {k} ({}) is not a chirp on a hop frequency", bits[k]);
            matched.push(if fits.len() == 1 { Some(fits[0]) } else { None });
        }
        no_repeats(&matched, h.num)?;
        // The hop order does not depend on the data.
        let other = take_up_to(tx_fh_css_signal(bits.iter().map(|b| !b), fs, h.sr, h.low(), h.high(), h.num), n + sps + 1);
        ensure!(other.len() == n, "{} samples for the complement", other.len());
        for (k, s) in other.chunks(sps).enumerate() {
            if let Some(f) = matched[k] {
                ensure!(!matches(s, if bits[k] { &down[f..=f] } else { &up[f..=f] }, 1e-6).is_empty(), "hop {k} depends on the data");
            }
        }
        let whole = matched.len() >= h.num && matched[..h.num].iter().all(|m| m.is_some());
        held(whole, &[bucket("freqs", h.num), bucket("symbols", matched.len())])
    }

fn c13() -> Vec<Law> {
    vec![
        law(
            "linear_chirp",
            "at least three samples of a non-zero sweep",
            cases(4000, 60_000),
            chirp_case,
            |c: &Chirp| {
                let fs = c.n * c.rate;
                let got = take_up_to(linear_chirp(c.rate as f64, fs, c.f0, c.f1), c.n + 2);
                same_chirp("chirp", got, c.f0, c.f1, fs, c.n)?;
                held(c.n > 2 && c.f0 != c.f1, &[bucket("samples", c.n)])
            },
        ),
        law(
            "centred_chirps",
            "at least three samples of a non-zero sweep",
            cases(4000, 60_000),
            chirp_case,
            |c: &Chirp| {
                let fs = c.n * c.rate;
                let (lo, hi) = (c.f0.min(c.f1), c.f0.max(c.f1));
                let (fc, bw) = ((lo + hi) / 2.0, hi - lo);
                let up = take_up_to(linear_upchirp_centered(c.rate as f64, fc, bw, fs), c.n + 2);
                same_chirp("up-chirp", up, lo, hi, fs, c.n)?;
                let down = take_up_to(linear_downchirp_centered(c.rate as f64, fc, bw, fs), c.n + 2);
                same_chirp("down-chirp", down, hi, lo, fs, c.n)?;
                held(c.n > 2 && bw > 0.0, &[bucket("samples", c.n)])
            },
        ),
        law(
            "fh_css_symbols",
            "at least one whole block of hops was told apart",
            cases(2500, 40_000),
            || hopped(12, 160, 20_000),
            css_symbols,
        ),
        law("fh_css_symbols_long", "as fh_css_symbols", cases(4, 60), || hop_soak(12, 24, Just(800_000usize).boxed()), css_symbols),
        law(
            "fh_css_demodulates",
            "at least ten bits were recovered",
            cases(600, 10_000),
            || {
                let h = (64usize..=256, symbol_rate(), 0.25f64..0.45, 0.2f64..0.45, 2usize..7)
                    .prop_map(|(sps, sr, lo, w, num)| HopSpec { sps, sr, lo, hi: lo + w, num });
                (h, any::<u64>(), 10usize..60).boxed()
            },
            |(h, seed, n): &(HopSpec, u64, usize)| {
                // A receiver that knows the hop order tells up from down, provided the sweep
                // covers at least four cycles per symbol and stays between 0 and Nyquist.
                let bw = (h.high() - h.low()) / h.num as f64;
                if bw / (h.sr as f64) < 4.0 || h.low() < bw || h.high() + bw / 2.0 > 0.49 * h.fs() as f64 {
                    return trivial();
                }
                let bits = Msg::Gen { len: *n, seed: *seed, pattern: 9 }.bits();
                let (fs, sps) = (h.fs(), h.sps);
                let send = |b: Vec<bool>| take_up_to(tx_fh_css_signal(b.into_iter(), fs, h.sr, h.low(), h.high(), h.num), (n + 1) * sps);
                let (tx, one, zero) = (send(bits.clone()), send(vec![true; *n]), send(vec![false; *n]));
                ensure!(tx.len() == n * sps && one.len() == tx.len() && zero.len() == tx.len(), "{} samples", tx.len());
                for k in 0..*n {
                    let r = k * sps..(k + 1) * sps;
                    let c = |w: &[f64]| tx[r.clone()].iter().zip(&w[r.clone()]).map(|(a, b)| a * b).sum::<f64>();
                    ensure!((c(&one) > c(&zero)) == bits[k], "bit {k} is not the better match");
                }
                held(true, &[bucket("freqs", h.num)])
            },
        ),
    ]
}
