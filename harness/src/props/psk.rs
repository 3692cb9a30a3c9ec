//! C01-C04: BPSK and QPSK.

use super::Property;
use crate::ensure;
use crate::engine::*;
use crate::gen::*;
use crate::refs::*;
use komunikilo::bpsk::*;
use komunikilo::qpsk::*;
use komunikilo::{awgn_complex, energy};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C01", laws: c01, assumptions: &["symbols whose carrier energy is below 1e-6 of the symbol length are not compared (the decision there is rounding noise)"] },
        Property { id: "C02", laws: c02, assumptions: &["bits whose I/Q margin is below 1e-6 of the symbol length are not compared"] },
        Property { id: "C03", laws: c03, assumptions: &["tolerance 1e-7 + 1e-11 of the carrier phase"] },
        Property { id: "C04", laws: c04, assumptions: &["decisions whose correlation is within 1e-7 of zero (relative to the rectified sum) are not compared", "bit error rates are compared with a 6.5 sigma interval"] },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pass {
    pub link: Link,
    pub msg: Msg,
    pub gain: f64,
}

fn pass(lo: usize, hi: usize, budget: usize) -> BoxedStrategy<Pass> {
    (link(lo, hi), msg(budget), gain())
        .prop_map(move |(link, m, gain)| Pass { msg: fit(m, link.sps, budget), link, gain })
        .boxed()
}

/// Few symbols, very many samples: what only shows after a long run.
fn soak(budget: usize) -> BoxedStrategy<Pass> {
    (link(1, 4096), any::<u64>(), gain(), soak_len(budget))
        .prop_map(|(link, seed, gain, total)| Pass {
            msg: Msg::Gen { len: (total / link.sps).max(1), seed, pattern: 9 },
            link,
            gain,
        })
        .boxed()
}

fn bpsk_loop(c: &Pass) -> Res {
    let bits = c.msg.bits();
    let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
    let n = bits.len() * sps;
    let tx = take_up_to(tx_bpsk_signal(bits.iter().copied(), fs, c.link.sr, fc), n + sps + 1);
    ensure!(tx.len() == n, "{} samples for {} bits at {} samples per bit", tx.len(), bits.len(), sps);
    let sure: Vec<bool> = (0..bits.len())
        .map(|k| gram(fc, fs, sps, k).0 > 1e-6 * sps as f64)
        .collect();
    let rx = take_up_to(rx_bpsk_signal(tx.iter().map(|s| s * c.gain), fs, c.link.sr, fc), bits.len() + 2);
    let m = same_bits_where("rx(gain * tx)", &rx, &bits, |i| sure[i])?;
    let inv = take_up_to(rx_bpsk_signal(tx.iter().map(|s| -s * c.gain), fs, c.link.sr, fc), bits.len() + 2);
    let not: Vec<bool> = bits.iter().map(|b| !b).collect();
    same_bits_where("rx(-gain * tx)", &inv, &not, |i| sure[i])?;
    held(m > 0, &[bucket("bits", bits.len()), bucket("sps", sps), bucket("samples", n)])
}

fn c01() -> Vec<Law> {
    vec![
        law(
            "bpsk_baseband_loopback",
            "at least one bit was sent",
            cases(3000, 60_000),
            || (long_msg(20_000, 3_000_000), gain()).boxed(),
            |(m, g): &(Msg, f64)| {
                let bits = m.bits();
                let tx = take_up_to(tx_baseband_bpsk_signal(bits.iter().copied()), bits.len() + 2);
                ensure!(tx.len() == bits.len(), "{} symbols for {} bits", tx.len(), bits.len());
                let rx = take_up_to(rx_baseband_bpsk_signal(tx.iter().map(|s| s * *g)), bits.len() + 2);
                same_bits("rx(tx)", &rx, &bits)?;
                let inv = take_up_to(rx_baseband_bpsk_signal(tx.iter().map(|s| -s * *g)), bits.len() + 2);
                let not: Vec<bool> = bits.iter().map(|b| !b).collect();
                same_bits("rx(-tx)", &inv, &not)?;
                held(!bits.is_empty(), &[bucket("bits", bits.len())])
            },
        ),
        law(
            "bpsk_passband_loopback",
            "at least one bit with carrier energy was sent and compared",
            cases(4000, 80_000),
            || pass(1, 600, 20_000),
            bpsk_loop,
        ),
        law(
            "bpsk_passband_long",
            "at least one bit with carrier energy was sent and compared",
            cases(24, 200),
            || soak(1_200_000),
            bpsk_loop,
        ),
    ]
}

fn qpsk_loop(c: &Pass) -> Res {
    let bits = c.msg.bits();
    let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
    let pairs = bits.len() / 2;
    let n = pairs * sps;
    let tx = take_up_to(tx_qpsk_signal(bits.iter().copied(), fs, c.link.sr, fc), n + sps + 1);
    ensure!(tx.len() == n, "{} samples for {} bits at {} samples per symbol", tx.len(), bits.len(), sps);
    let sure: Vec<bool> = (0..pairs)
        .flat_map(|k| {
            let (cc, ss, sc) = gram(fc, fs, sps, k);
            [cc - sc.abs() > 1e-6 * sps as f64, ss - sc.abs() > 1e-6 * sps as f64]
        })
        .collect();
    let whole = &bits[..2 * pairs];
    let rx = take_up_to(rx_qpsk_signal(tx.iter().map(|s| s * c.gain), fs, c.link.sr, fc), bits.len() + 4);
    let m = same_bits_where("rx(gain * tx)", &rx, whole, |i| sure[i])?;
    let inv = take_up_to(rx_qpsk_signal(tx.iter().map(|s| -s * c.gain), fs, c.link.sr, fc), bits.len() + 4);
    let not: Vec<bool> = whole.iter().map(|b| !b).collect();
    same_bits_where("rx(-gain * tx)", &inv, &not, |i| sure[i])?;
    held(m > 0, &[bucket("bits", bits.len()), bucket("sps", sps), format!("odd:{}", bits.len() % 2)])
}

fn c02() -> Vec<Law> {
    vec![
        law(
            "qpsk_baseband_loopback",
            "at least one symbol was sent",
            cases(3000, 60_000),
            || (long_msg(20_000, 3_000_000), gain()).boxed(),
            |(m, g): &(Msg, f64)| {
                let bits = m.bits();
                let pairs = bits.len() / 2;
                let tx = take_up_to(tx_baseband_qpsk_signal(bits.iter().copied()), pairs + 2);
                ensure!(tx.len() == pairs, "{} symbols for {} bits", tx.len(), bits.len());
                let rx = take_up_to(rx_baseband_qpsk_signal(tx.iter().map(|s| s * *g)), bits.len() + 4);
                same_bits("rx(tx)", &rx, &bits[..2 * pairs])?;
                // A quarter turn of the channel maps (i, q) to (!q, i).
                let turned = take_up_to(rx_baseband_qpsk_signal(tx.iter().map(|s| s * C64::new(0.0, *g))), bits.len() + 4);
                let want: Vec<bool> = bits[..2 * pairs].chunks(2).flat_map(|p| [!p[1], p[0]]).collect();
                same_bits("rx(j tx)", &turned, &want)?;
                held(pairs > 0, &[bucket("bits", bits.len()), format!("odd:{}", bits.len() % 2)])
            },
        ),
        law(
            "qpsk_passband_loopback",
            "at least one bit with a positive I/Q margin was sent and compared",
            cases(4000, 80_000),
            || pass(1, 600, 20_000),
            qpsk_loop,
        ),
        law(
            "qpsk_passband_long",
            "at least one bit with a positive I/Q margin was sent and compared",
            cases(24, 200),
            || soak(1_000_000),
            qpsk_loop,
        ),
    ]
}

fn bpsk_wave(c: &Pass) -> Res {
    let bits = c.msg.bits();
    let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
    let n = bits.len() * sps;
    let tx = take_up_to(tx_bpsk_signal(bits.iter().copied(), fs, c.link.sr, fc), n + sps + 1);
    same_wave("BPSK", &tx, n, |i| nrz(bits[i / sps]) * ccos(fc, i, fs), |i| wtol(fc, i, fs))?;
    held(n > 0, &[bucket("samples", n), bucket("sps", sps)])
}

fn qpsk_wave(c: &Pass) -> Res {
    let bits = c.msg.bits();
    let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
    let n = bits.len() / 2 * sps;
    let tx = take_up_to(tx_qpsk_signal(bits.iter().copied(), fs, c.link.sr, fc), n + sps + 1);
    same_wave(
        "QPSK",
        &tx,
        n,
        |i| {
            let k = i / sps;
            nrz(bits[2 * k]) * ccos(fc, i, fs) - nrz(bits[2 * k + 1]) * csin(fc, i, fs)
        },
        |i| 2.0 * wtol(fc, i, fs),
    )?;
    held(n > 0, &[bucket("samples", n), bucket("sps", sps)])
}

fn c03() -> Vec<Law> {
    vec![
        law(
            "baseband_constellations",
            "at least two bits were mapped",
            cases(2500, 40_000),
            || long_msg(10_000, 3_000_000),
            |m: &Msg| {
                let bits = m.bits();
                let b = take_up_to(tx_baseband_bpsk_signal(bits.iter().copied()), bits.len() + 2);
                ensure!(b.len() == bits.len(), "{} BPSK symbols for {} bits", b.len(), bits.len());
                for (i, s) in b.iter().enumerate() {
                    ensure!((s - C64::new(nrz(bits[i]), 0.0)).norm() < 1e-12, "BPSK symbol {i} is {s}");
                }
                let q = take_up_to(tx_baseband_qpsk_signal(bits.iter().copied()), bits.len() + 2);
                ensure!(q.len() == bits.len() / 2, "{} QPSK symbols for {} bits", q.len(), bits.len());
                for (i, s) in q.iter().enumerate() {
                    let w = C64::new(nrz(bits[2 * i]), nrz(bits[2 * i + 1])) * 2f64.sqrt();
                    ensure!((s - w).norm() < 1e-12, "QPSK symbol {i} is {s}, expected {w}");
                }
                held(bits.len() > 1, &[bucket("bits", bits.len())])
            },
        ),
        law("bpsk_waveform", "at least one sample was compared with +-cos", cases(3000, 60_000), || pass(1, 800, 20_000), bpsk_wave),
        law("qpsk_waveform", "at least one sample was compared with +-cos -+sin", cases(3000, 60_000), || pass(1, 800, 20_000), qpsk_wave),
        law("bpsk_waveform_long", "at least one sample was compared", cases(16, 150), || soak(1_500_000), bpsk_wave),
        law("qpsk_waveform_long", "at least one sample was compared", cases(16, 150), || soak(1_000_000), qpsk_wave),
        law(
            "energy_per_bit",
            "a whole number of half cycles per symbol and at least one symbol",
            cases(1500, 20_000),
            || (ortho_link(2, 400), msg_in(1, 400)).prop_map(|(link, m)| Pass { msg: fit(m, link.sps, 20_000), link, gain: 1.0 }).boxed(),
            |c: &Pass| {
                // Eb does not depend on the data: T/2 per BPSK bit, T per QPSK symbol (two bits).
                let bits = c.msg.bits();
                let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
                let t = 1.0 / c.link.sr as f64;
                let b = energy(take_up_to(tx_bpsk_signal(bits.iter().copied(), fs, c.link.sr, fc), bits.len() * sps + 1).into_iter(), fs as f64);
                let want = bits.len() as f64 * t / 2.0;
                ensure!((b - want).abs() <= 1e-6 * want, "BPSK energy {b}, expected {want}");
                let q = energy(take_up_to(tx_qpsk_signal(bits.iter().copied(), fs, c.link.sr, fc), bits.len() * sps + 1).into_iter(), fs as f64);
                let want = (bits.len() / 2) as f64 * t;
                ensure!((q - want).abs() <= 1e-6 * want.max(1e-12), "QPSK energy {q}, expected {want}");
                held(true, &[bucket("bits", bits.len())])
            },
        ),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Recv {
    pub link: Link,
    pub wave: Wave,
}

pub fn recv(lo: usize, hi: usize, max: usize) -> BoxedStrategy<Recv> {
    (link(lo, hi), recv_wave(0, max)).prop_map(|(link, wave)| Recv { link, wave }).boxed()
}

fn long_recv(budget: usize) -> BoxedStrategy<Recv> {
    (link(1, 4096), long_wave(budget)).prop_map(|(link, wave)| Recv { link, wave }).boxed()
}

fn rx_bpsk_law(c: &Recv) -> Res {
    let s = c.wave.samples();
    let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
    let rx = take_up_to(rx_bpsk_signal(s.iter().copied(), fs, c.link.sr, fc), s.len() / sps + 2);
    let cor = correlate(&s, sps, |n| ccos(fc, n, fs));
    let want: Vec<bool> = cor.iter().map(|x| x.0 > 0.0).collect();
    let m = same_bits_where("BPSK decisions", &rx, &want, |i| cor[i].0.abs() > 1e-7 * cor[i].1 && cor[i].1 > 1e-250)?;
    held(m > 0, &[bucket("symbols", cor.len()), format!("partial_tail:{}", s.len() % sps != 0)])
}

fn rx_qpsk_law(c: &Recv) -> Res {
    let s = c.wave.samples();
    let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
    let rx = take_up_to(rx_qpsk_signal(s.iter().copied(), fs, c.link.sr, fc), 2 * (s.len() / sps) + 4);
    let i = correlate(&s, sps, |n| ccos(fc, n, fs));
    let q = correlate(&s, sps, |n| -csin(fc, n, fs));
    let cor: Vec<(f64, f64)> = i.iter().zip(&q).flat_map(|(a, b)| [*a, *b]).collect();
    let want: Vec<bool> = cor.iter().map(|x| x.0 > 0.0).collect();
    let m = same_bits_where("QPSK decisions", &rx, &want, |i| cor[i].0.abs() > 1e-7 * cor[i].1 && cor[i].1 > 1e-250)?;
    held(m > 0, &[bucket("symbols", i.len()), format!("partial_tail:{}", s.len() % sps != 0)])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Noisy {
    seed: u64,
    /// Eb/N0, linear.
    snr: f64,
    sps: usize,
    cycles: usize,
    bits: usize,
}

fn c04() -> Vec<Law> {
    vec![
        law("bpsk_receiver_long", "at least one decision away from the threshold was compared", cases(8, 100), || long_recv(1_500_000), rx_bpsk_law),
        law("qpsk_receiver_long", "at least one decision away from the threshold was compared", cases(8, 100), || long_recv(1_000_000), rx_qpsk_law),
        law("bpsk_receiver_correlates", "at least one decision away from the threshold was compared", cases(5000, 100_000), || recv(1, 400, 12_000), rx_bpsk_law),
        law("qpsk_receiver_correlates", "at least one decision away from the threshold was compared", cases(5000, 100_000), || recv(1, 400, 12_000), rx_qpsk_law),
        law(
            "baseband_receivers_slice",
            "at least one sample away from the threshold was compared",
            cases(3000, 50_000),
            || (prop_oneof![400 => recv_wave(0, 4000), 1 => long_wave(2_000_000)], any::<u64>()).boxed(),
            |(w, seed): &(Wave, u64)| {
                let s = w.samples();
                let mut r = Prng(*seed);
                let z: Vec<C64> = s.iter().map(|&x| C64::new(x, r.range(-3.0, 3.0))).collect();
                let b = take_up_to(rx_baseband_bpsk_signal(z.iter().copied()), z.len() + 2);
                let want: Vec<bool> = z.iter().map(|x| x.re > 0.0).collect();
                let m = same_bits_where("BPSK slicer", &b, &want, |i| z[i].re != 0.0)?;
                let q = take_up_to(rx_baseband_qpsk_signal(z.iter().copied()), 2 * z.len() + 4);
                let want: Vec<bool> = z.iter().flat_map(|x| [x.re > 0.0, x.im > 0.0]).collect();
                same_bits_where("QPSK slicer", &q, &want, |i| if i % 2 == 0 { z[i / 2].re != 0.0 } else { z[i / 2].im != 0.0 })?;
                held(m > 0, &[bucket("symbols", z.len())])
            },
        ),
        law(
            "noise_error_rate",
            "between 20 and bits/2 errors are expected",
            cases(64, 1200),
            || {
                (any::<u64>(), 0.05f64..4.0, 2usize..24, 1usize..30, 8_000usize..20_000)
                    .prop_map(|(seed, snr, sps, cycles, bits)| Noisy { seed, snr, sps, cycles: 1 + cycles % (sps - 1), bits })
                    .boxed()
            },
            |c: &Noisy| {
                // Coherent detection in white noise: Pb = Q(sqrt(2 Eb/N0)) for BPSK and for each QPSK bit.
                let bits = Msg::Gen { len: c.bits & !1, seed: c.seed, pattern: 9 }.bits();
                let (fs, sr, sps) = (c.sps * 100, 100, c.sps);
                let fc = c.cycles as f64 * 50.0;
                let mut r = Prng(c.seed ^ 0xabcdef);
                // Eb in sample units is sps / 2 for both; N0 / 2 = sigma^2.
                let sigma = (sps as f64 / 2.0 / (2.0 * c.snr)).sqrt();
                let p = q_func((2.0 * c.snr).sqrt());
                let check = |what: &str, rx: Vec<bool>| -> Result<f64, String> {
                    ensure!(rx.len() == bits.len(), "{what}: {} bits instead of {}", rx.len(), bits.len());
                    let e = rx.iter().zip(&bits).filter(|(a, b)| a != b).count() as f64;
                    let mean = p * bits.len() as f64;
                    let sd = (mean * (1.0 - p)).sqrt();
                    ensure!((e - mean).abs() <= 6.5 * sd + 8.0, "{what}: {e} errors in {} bits, theory {mean:.1} +- {sd:.1}", bits.len());
                    Ok(mean)
                };
                let b: Vec<f64> = tx_bpsk_signal(bits.iter().copied(), fs, sr, fc).map(|s| s + sigma * r.gauss()).take(bits.len() * sps + 1).collect();
                let mean = check("BPSK", take_up_to(rx_bpsk_signal(b.into_iter(), fs, sr, fc), bits.len() + 2))?;
                let q: Vec<f64> = tx_qpsk_signal(bits.iter().copied(), fs, sr, fc).map(|s| s + sigma * r.gauss()).take(bits.len() * sps + 1).collect();
                check("QPSK", take_up_to(rx_qpsk_signal(q.into_iter(), fs, sr, fc), bits.len() + 2))?;
                // Baseband: unit BPSK symbols, real noise variance N0/2 = 1 / (2 snr).
                let z: Vec<C64> = awgn_complex(tx_baseband_bpsk_signal(bits.iter().copied()), (0.5 / c.snr).sqrt()).take(bits.len() + 1).collect();
                check("baseband BPSK", take_up_to(rx_baseband_bpsk_signal(z.into_iter()), bits.len() + 2))?;
                // Baseband QPSK has sqrt(2) per axis.
                let z: Vec<C64> = awgn_complex(tx_baseband_qpsk_signal(bits.iter().copied()), (1.0 / c.snr).sqrt()).take(bits.len() + 1).collect();
                check("baseband QPSK", take_up_to(rx_baseband_qpsk_signal(z.into_iter()), bits.len() + 2))?;
                held(mean > 20.0, &[bucket("expected_errors", mean as usize)])
            },
        ),
    ]
}
