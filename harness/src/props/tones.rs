//! C14: FSK and FM.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C14",
        laws: c14,
        assumptions: &[
            "the FSK loopback is claimed for carriers of at least 20 cycles per symbol and at most 0.43 of the sample rate (tones 5 % of the carrier apart)",
            "decisions within 1e-6 of a tie are not compared",
        ],
    }]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tones {
    sps: usize,
    sr: usize,
    lo: f64,
    hi: f64,
    msg: Msg,
}

fn tones(budget: usize) -> BoxedStrategy<Tones> {
    (link(1, 500), 0.0f64..1.0, msg(budget), any::<bool>())
        .prop_map(move |(l, u, m, swap)| {
            let other = u * (l.fs() / 2) as f64;
            // "low" need not be the lower one.
            let (lo, hi) = if swap { (l.fc, other) } else { (other, l.fc) };
            Tones { msg: fit(m, l.sps, budget), sps: l.sps, sr: l.sr, lo, hi }
        })
        .boxed()
}

fn tones_soak(budget: usize) -> BoxedStrategy<Tones> {
    (link(1, 2000), 0.0f64..1.0, any::<u64>(), soak_len(budget))
        .prop_map(move |(l, u, seed, total)| Tones {
            msg: Msg::Gen { len: total / l.sps, seed, pattern: 9 },
            sps: l.sps,
            sr: l.sr,
            lo: u * (l.fs() / 2) as f64,
            hi: l.fc,
        })
        .boxed()
}

fn bfsk(c: &Tones) -> Res {
    let bits = c.msg.bits();
    let fs = c.sps * c.sr;
    let n = bits.len() * c.sps;
    let f = |i: usize| if bits[i / c.sps] { c.hi } else { c.lo };
    let check = |what: &str, got: Vec<f64>| same_wave(what, &got, n, |i| ccos(f(i), i, fs), |i| wtol(f(i), i, fs));
    check("BFSK", take_up_to(tx_bfsk_signal(bits.iter().copied(), fs, c.sr, c.lo, c.hi), n + c.sps + 1))?;
    check("2-FSK", take_up_to(tx_mfsk_signal(bits.iter().copied(), fs, c.sr, c.lo, c.hi, 2), n + c.sps + 1))?;
    check("FSK [high, low]", take_up_to(tx_fsk_signal(bits.iter().copied(), fs, c.sr, &[c.hi, c.lo]), n + c.sps + 1))?;
    held(n > 0 && c.lo != c.hi, &[bucket("samples", n), bucket("sps", c.sps)])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fm {
    link: Link,
    msg: Msg,
    gain: f64,
}

fn fsk_wave(c: &Fm) -> Res {
    let bits = c.msg.bits();
    let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
    let n = bits.len() * sps;
    let tx = take_up_to(tx_fsk(bits.iter().copied(), fs, c.link.sr, fc), n + sps + 1);
    let f = |i: usize| fc + nrz(bits[i / sps]) * 0.025 * fc;
    same_wave("FSK", &tx, n, |i| ccos(f(i), i, fs), |i| wtol(f(i), i, fs))?;
    held(n > 0 && fc > 0.0, &[bucket("samples", n), bucket("sps", sps)])
}

fn fsk_loop(c: &Fm) -> Res {
    let bits = c.msg.bits();
    let (fs, sr, fc) = (c.link.fs(), c.link.sr, c.link.fc);
    let tx = take_up_to(tx_fsk(bits.iter().copied(), fs, sr, fc), (bits.len() + 1) * c.link.sps);
    let rx = take_up_to(rx_fsk(tx.iter().map(|s| s * c.gain), fs, sr, fc), bits.len() + 2);
    same_bits("FSK loopback", &rx, &bits)?;
    // A non-coherent receiver does not see the sign of the channel.
    let rx = take_up_to(rx_fsk(tx.iter().map(|s| -s * c.gain), fs, sr, fc), bits.len() + 2);
    same_bits("inverted FSK loopback", &rx, &bits)?;
    held(!bits.is_empty(), &[bucket("bits", bits.len()), bucket("sps", c.link.sps)])
}

fn fsk_link() -> BoxedStrategy<Link> {
    (size(48, 1500), symbol_rate(), 0.0f64..1.0)
        .prop_map(|(sps, sr, u)| {
            let (lo, hi) = (20.0 * sr as f64, 0.43 * (sps * sr) as f64);
            Link { sps, sr, fc: lo + u * (hi - lo) }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Audio {
    link: Link,
    wave: Wave,
}

fn fm_wave(c: &Audio) -> Res {
    let a = c.wave.samples();
    let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
    let n = a.len() * sps;
    let tx = take_up_to(tx_fm(a.iter().copied(), fs, c.link.sr, fc), n + sps + 1);
    ensure!(tx.len() == n, "{} samples for {} audio samples", tx.len(), a.len());
    // Cumulative sum, and the size of what was summed (for the tolerance).
    let mut sum = vec![(0.0f64, 0.0f64); n];
    let (mut s, mut m) = (0.0, 0.0);
    for i in 0..n {
        s += a[i / sps];
        m += a[i / sps].abs();
        sum[i] = (s, m);
    }
    let want = |i: usize| (phase(fc, i, fs) + 0.05 * sum[i].0).cos();
    same_wave("FM", &tx, n, want, |i| wtol(fc, i, fs) + 1e-10 * sum[i].1)?;
    held(n > 1, &[bucket("samples", n), bucket("sps", sps)])
}

fn fsk_recv(c: &Audio) -> Res {
        let s = c.wave.samples();
        let (fs, sps, fc) = (c.link.fs(), c.link.sps, c.link.fc);
        let e = |b: &[f64], f: f64| -> f64 {
            b.iter().enumerate().map(|(j, x)| x * C64::from_polar(1.0, phase(f, j, fs))).sum::<C64>().norm_sqr()
        };
        let dec: Vec<(bool, bool)> = s
            .chunks_exact(sps)
            .map(|b| {
                let (hi, lo) = (e(b, 1.025 * fc), e(b, 0.975 * fc));
                let l1: f64 = b.iter().map(|x| x.abs()).sum();
                (hi > lo, (hi - lo).abs() > 1e-6 * l1 * l1 && l1 > 1e-140)
            })
            .collect();
        let rx = take_up_to(rx_fsk(s[..dec.len() * sps].iter().copied(), fs, c.link.sr, fc), dec.len() + 2);
        let want: Vec<bool> = dec.iter().map(|d| d.0).collect();
        let m = same_bits_where("FSK decisions", &rx, &want, |i| dec[i].1)?;
        held(m > 0, &[bucket("symbols", dec.len()), bucket("sps", sps)])
    }

fn c14() -> Vec<Law> {
    vec![
        law("bfsk_waveform", "at least one sample, two different tones", cases(4000, 80_000), || tones(15_000), bfsk),
        law("bfsk_waveform_long", "as bfsk_waveform", cases(10, 100), || tones_soak(800_000), bfsk),
        law(
            "fsk_waveform",
            "at least one sample on a non-zero carrier",
            cases(3000, 50_000),
            || (link(1, 500), msg(15_000), gain()).prop_map(|(link, m, gain)| Fm { msg: fit(m, link.sps, 15_000), link, gain }).boxed(),
            fsk_wave,
        ),
        law(
            "fsk_loopback",
            "at least one bit was sent",
            cases(2500, 50_000),
            || (fsk_link(), msg(15_000), gain()).prop_map(|(link, m, gain)| Fm { msg: fit(m, link.sps, 15_000), link, gain }).boxed(),
            fsk_loop,
        ),
        law(
            "fsk_long",
            "at least one bit was sent",
            cases(10, 100),
            || (fsk_link(), any::<u64>(), soak_len(800_000)).prop_map(|(link, seed, total)| Fm { msg: Msg::Gen { len: total / link.sps, seed, pattern: 9 }, link, gain: 1.0 }).boxed(),
            fsk_loop,
        ),
        law(
            "fsk_receiver_compares_tone_energies",
            "at least one decision away from a tie was compared",
            cases(3000, 50_000),
            || (link(1, 300), recv_wave(0, 8000)).prop_map(|(link, wave)| Audio { link, wave }).boxed(),
            fsk_recv,
        ),
        law("fsk_receiver_long", "as fsk_receiver_compares_tone_energies", cases(4, 60), || (link(1, 2000), long_wave(600_000)).prop_map(|(link, wave)| Audio { link, wave }).boxed(), fsk_recv),
        law("fsk_waveform_long", "as fsk_waveform", cases(8, 100), || (link(1, 2000), any::<u64>(), soak_len(1_000_000)).prop_map(|(link, seed, total)| Fm { msg: Msg::Gen { len: total / link.sps, seed, pattern: 9 }, link, gain: 1.0 }).boxed(), fsk_wave),
        law(
            "fm_waveform",
            "at least two samples",
            cases(3000, 50_000),
            || {
                (link(1, 200), wave(0, 3000))
                    .prop_map(|(link, w)| {
                        let cut = 20_000 / link.sps;
                        let wave = match w {
                            Wave::Gauss { len, seed, sigma } => Wave::Gauss { len: len.min(cut), seed, sigma },
                            Wave::Sparse { len, seed, every } => Wave::Sparse { len: len.min(cut), seed, every },
                            Wave::Steps { len, seed, hold } => Wave::Steps { len: len.min(cut), seed, hold },
                            Wave::Ints { len, seed, max } => Wave::Ints { len: len.min(cut), seed, max },
                            v => v,
                        };
                        Audio { link, wave }
                    })
                    .boxed()
            },
            fm_wave,
        ),
        law(
            "fm_waveform_long",
            "at least two samples",
            cases(8, 80),
            || (link(1, 64), any::<u64>(), soak_len(800_000)).prop_map(|(link, seed, total)| Audio { wave: Wave::Steps { len: total / link.sps, seed, hold: 50 }, link }).boxed(),
            fm_wave,
        ),
    ]
}
