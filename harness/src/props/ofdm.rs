//! C10, C11: OFDM. C16: FH-OFDM-DCSK.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::ofdm::*;
use komunikilo::qpsk::tx_baseband_qpsk_signal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C10", laws: c10, assumptions: &["at least one pilot and at least one data carrier; 2 to 16384 subcarriers"] },
        Property { id: "C11", laws: c11, assumptions: &["loopback on a carrier at a whole multiple of half the symbol rate, strictly between 0 and Nyquist"] },
        Property { id: "C16", laws: c16, assumptions: &["the padded block the transmitter appends after a whole number of blocks is tolerated, not required"] },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grid {
    sub: usize,
    pilots: usize,
}

impl Grid {
    fn data(&self) -> usize {
        self.sub - self.pilots
    }
    fn cp(&self) -> usize {
        self.sub / 4
    }
    fn sym(&self) -> usize {
        self.sub + self.cp()
    }
    /// Carriers that carry data, in increasing frequency order; DC is carrier `sub / 2`.
    fn carriers(&self) -> Vec<usize> {
        let back = (self.pilots - 1) / 2;
        let front = self.pilots - 1 - back;
        (front..self.sub - back).filter(|&c| c != self.sub / 2).collect()
    }
}

fn grid(max: usize) -> BoxedStrategy<Grid> {
    (prop_oneof![3 => size(2, max), 2 => prop::sample::select(vec![4usize, 8, 16, 32, 64, 128]).prop_map(move |x| x.min(max))], any::<u16>(), 0u8..3)
        .prop_map(|(sub, p, mode)| {
            let max = sub - 1;
            let pilots = match mode {
                0 => 1 + p as usize % max.min(4),
                1 => 1 + p as usize % (max / 3).max(1),
                _ => 1 + p as usize % max,
            };
            Grid { sub, pilots }
        })
        .boxed()
}

fn symbols(n: usize, seed: u64, kind: u8) -> Vec<C64> {
    let mut r = Prng(seed);
    if kind == 3 {
        // Runs of very different sizes, some of them broken.
        let hold = 1 + r.below(100);
        let mut level = 1.0;
        return (0..n)
            .map(|i| {
                if i % hold == 0 {
                    level = if r.below(12) == 0 { [f64::NAN, f64::INFINITY, 0.0, 1e250][r.below(4)] } else { 10f64.powf(r.range(-40.0, 40.0)) };
                }
                C64::new(level * r.gauss(), level * r.gauss())
            })
            .collect();
    }
    if kind == 4 {
        // Runs on one axis or at one point: alphabets of one dimension, silence, repetitions.
        let hold = 1 + r.below(200);
        let mut axis = C64::new(1.0, 0.0);
        let mut still = None;
        return (0..n)
            .map(|i| {
                if i % hold == 0 {
                    axis = [C64::new(1.0, 0.0), C64::new(0.0, 1.0), C64::new(0.0, 0.0), C64::new(1.0, 1.0), C64::new(1.0, -1.0)][r.below(5)];
                    still = (r.below(3) == 0).then(|| r.gauss());
                }
                axis * still.unwrap_or_else(|| r.gauss())
            })
            .collect();
    }
    (0..n)
        .map(|_| match kind {
            0 => C64::new(nrz(r.next() & 1 == 1), nrz(r.next() & 1 == 1)) * 2f64.sqrt(),
            1 => C64::new(r.range(-10.0, 10.0), r.range(-10.0, 10.0)),
            _ => {
                if r.below(4) == 0 {
                    C64::new(r.gauss(), r.gauss())
                } else {
                    C64::new(0.0, 0.0)
                }
            }
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Base {
    grid: Grid,
    n: usize,
    seed: u64,
    kind: u8,
}

fn base(maxsub: usize, maxn: usize) -> BoxedStrategy<Base> {
    (grid(maxsub), size(0, maxn), any::<u64>(), 0u8..5)
        .prop_map(|(grid, n, seed, kind)| Base { n: n.min(grid.data() * 40 + 3), grid, seed, kind })
        .boxed()
}

fn close(what: &str, got: &[C64], want: &[C64], tol: f64) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{what}: {} symbols instead of {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!((g - w).norm() <= tol * (1.0 + w.norm()), "{what}: symbol {i} is {g}, expected {w}");
    }
    Ok(())
}

/// The same, each block with a tolerance relative to its own size. Broken blocks are not compared.
fn close_blocks(what: &str, got: &[C64], want: &[C64], per: usize, size: impl Fn(usize) -> f64, tol: f64) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{what}: {} symbols instead of {}", got.len(), want.len());
    for (b, (g, w)) in got.chunks(per).zip(want.chunks(per)).enumerate() {
        let size = size(b);
        if size.is_finite() {
            for i in 0..w.len() {
                ensure!((g[i] - w[i]).norm() <= tol * size + 1e-290, "{what}: symbol {i} of block {b} is {}, expected {}", g[i], w[i]);
            }
        }
    }
    Ok(())
}

/// The largest sample of a block; infinite when a sample is broken or too large to compute with.
fn largest(b: &[C64]) -> f64 {
    b.iter().fold(0.0, |m, z| if z.norm() < 1e200 { z.norm().max(m) } else { f64::INFINITY })
}

fn zero_padded(x: &[C64], d: usize) -> Vec<C64> {
    let mut v = x.to_vec();
    v.resize(x.len().div_ceil(d) * d, C64::new(0.0, 0.0));
    v
}

fn base_loop(c: &Base) -> Res {
        let x = symbols(c.n, c.seed, c.kind);
        let g = &c.grid;
        let blocks = c.n.div_ceil(g.data());
        let tx = take_up_to(tx_baseband_ofdm_signal(x.iter().copied(), g.sub, g.pilots), (blocks + 1) * g.sym() + 1);
        ensure!(tx.len() == blocks * g.sym(), "{} samples for {} symbols", tx.len(), c.n);
        let rx = take_up_to(rx_baseband_ofdm_signal(tx.iter().copied(), g.sub, g.pilots), c.n + 2 * g.data() + 2);
        let x = zero_padded(&x, g.data());
        close_blocks("rx(tx)", &rx, &x, g.data(), |b| largest(&x[b * g.data()..(b + 1) * g.data()]), 1e-9)?;
        held(c.n > 0, &[bucket("subcarriers", g.sub), format!("odd:{}", g.sub % 2), bucket("blocks", blocks), format!("padded:{}", c.n % g.data() != 0)])
    }

fn multipath((c, taps): &(Base, Vec<(f64, f64)>)) -> Res {
        // Each carrier sees one complex gain, in every symbol: no ISI, no ICI.
        let g = &c.grid;
        let x = zero_padded(&symbols(c.n, c.seed, c.kind), g.data());
        let h: Vec<C64> = taps.iter().take(g.cp() + 1).map(|&(a, b)| C64::new(a, b)).collect();
        let tx: Vec<C64> = take_up_to(tx_baseband_ofdm_signal(x.iter().copied(), g.sub, g.pilots), x.len() * 3 * g.sub + 1);
        let faded: Vec<C64> = (0..tx.len())
            .map(|i| h.iter().enumerate().filter(|(d, _)| *d <= i).map(|(d, t)| t * tx[i - d]).sum())
            .collect();
        let gains: Vec<C64> = g
            .carriers()
            .iter()
            .map(|&car| {
                let f = car as f64 - (g.sub / 2) as f64;
                h.iter().enumerate().map(|(d, t)| t * C64::from_polar(1.0, -2.0 * PI * f * d as f64 / g.sub as f64)).sum()
            })
            .collect();
        let want: Vec<C64> = x.iter().enumerate().map(|(i, s)| s * gains[i % g.data()]).collect();
        let rx = take_up_to(rx_baseband_ofdm_signal(faded.into_iter(), g.sub, g.pilots), x.len() + g.data() + 1);
        let size = |b: usize| largest(&x[b * g.data()..(b + 1) * g.data()]) * (1.0 + h.iter().map(|t| t.norm()).sum::<f64>());
        close_blocks("faded symbols", &rx, &want, g.data(), size, 1e-8)?;
        held(h.len() > 1 && c.n > 0, &[bucket("taps", h.len()), bucket("subcarriers", g.sub)])
    }

fn structure(c: &Base) -> Res {
        // Cyclic prefix, null carriers, carrier order and the 1/N transform, by a naive DFT.
        let x = zero_padded(&symbols(c.n, c.seed, c.kind), c.grid.data());
        let g = &c.grid;
        let tx = take_up_to(tx_baseband_ofdm_signal(x.iter().copied(), g.sub, g.pilots), x.len() / g.data() * g.sym() + 1);
        ensure!(tx.len() == x.len() / g.data() * g.sym(), "{} samples", tx.len());
        let carriers = g.carriers();
        ensure!(carriers.len() == g.data(), "reference carriers");
        for (k, s) in tx.chunks(g.sym()).enumerate() {
            let size = largest(&x[k * g.data()..(k + 1) * g.data()]);
            close_blocks("cyclic prefix", &s[..g.cp()], &s[g.sub..], g.sub, |_| size, 1e-12)?;
            let f = dft(&s[g.cp()..], false);
            let mut want = vec![C64::new(0.0, 0.0); g.sub];
            for (i, &car) in carriers.iter().enumerate() {
                // Carrier c is at frequency c - sub / 2.
                want[(car + g.sub - g.sub / 2) % g.sub] = x[k * g.data() + i];
            }
            close_blocks(&format!("spectrum of OFDM symbol {k}"), &f, &want, g.sub, |_| size, 1e-9)?;
        }
        held(c.n > 0, &[bucket("subcarriers", g.sub), format!("odd:{}", g.sub % 2)])
    }

fn transform(c: &Base) -> Res {
        // Arbitrary samples, any length: whole symbols are transformed, an incomplete tail is dropped.
        let g = &c.grid;
        let s = symbols(c.n, c.seed, c.kind);
        let mut want = Vec::new();
        for b in s.chunks_exact(g.sym()) {
            let f = dft(&b[g.cp()..], false);
            want.extend(g.carriers().iter().map(|&car| f[(car + g.sub - g.sub / 2) % g.sub]));
        }
        let rx = take_up_to(rx_baseband_ofdm_signal(s.iter().copied(), g.sub, g.pilots), c.n + g.sub + 1);
        let size = |b: usize| largest(&s[b * g.sym()..(b + 1) * g.sym()]) * g.sub as f64;
        close_blocks("received symbols", &rx, &want, g.data(), size, 1e-9)?;
        held(c.n >= g.sym(), &[bucket("subcarriers", g.sub), format!("tail:{}", c.n % g.sym() != 0)])
    }

/// Many carriers, or many OFDM symbols.
fn base_long() -> BoxedStrategy<Base> {
    (prop_oneof![grid(64), grid(512), grid(16_384)], 100_000usize..400_000, any::<u64>(), 0u8..5)
        .prop_map(|(grid, n, seed, kind)| Base { n: n.min(4000 * grid.data().max(8)), grid, seed, kind })
        .boxed()
}

fn c10() -> Vec<Law> {
    vec![
        law("baseband_long", "as baseband_loopback", cases(6, 100), base_long, base_loop),
        law(
            "symbol_structure_long",
            "as symbol_structure",
            cases(6, 80),
            || (grid(48), 10_000usize..40_000, any::<u64>(), 0u8..5).prop_map(|(grid, n, seed, kind)| Base { n: n.min(1500 * grid.data()), grid, seed, kind }).boxed(),
            structure,
        ),
        law(
            "large_transforms",
            "as symbol_structure",
            cases(6, 80),
            || (grid(2048), 1usize..5000, any::<u64>(), 0u8..5).prop_map(|(grid, n, seed, kind)| Base { n: n.min(3 * grid.data()), grid, seed, kind }).boxed(),
            structure,
        ),
        law(
            "baseband_loopback",
            "at least one OFDM symbol was sent",
            cases(4000, 80_000),
            || base(512, 5000),
            base_loop,
        ),
        law(
            "symbol_structure",
            "at least one OFDM symbol was sent",
            cases(1500, 20_000),
            || base(128, 600),
            structure,
        ),
        law(
            "multipath_within_the_prefix",
            "the channel has at least two taps",
            cases(1500, 30_000),
            || (base(128, 800), prop::collection::vec((-1.0f64..1.0, -1.0f64..1.0), 1..20)).boxed(),
            multipath,
        ),
        law(
            "receiver_is_the_transform",
            "at least one whole OFDM symbol was received",
            cases(1500, 30_000),
            || (grid(100), size(0, 1500), any::<u64>(), 1u8..5).prop_map(|(grid, n, seed, kind)| Base { grid, n, seed, kind }).boxed(),
            transform,
        ),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pb {
    grid: Grid,
    link: Link,
    msg: Msg,
    gain: f64,
}

fn pb(ortho: bool, maxsps: usize, budget: usize) -> BoxedStrategy<Pb> {
    (grid(96), if ortho { ortho_link(2, maxsps) } else { link(1, maxsps) }, msg(4000), gain())
        .prop_map(move |(grid, link, m, gain)| {
            let per_bit = link.sps * grid.sym() / (2 * grid.data()) + 1;
            Pb { msg: fit(m, per_bit, budget), grid, link, gain }
        })
        .boxed()
}

fn pb_wave(c: &Pb) -> Res {
    let bits = c.msg.bits();
    let g = &c.grid;
    let (fs, sps, fc, sr) = (c.link.fs(), c.link.sps, c.link.fc, c.link.sr);
    let q = tx_baseband_qpsk_signal(bits.iter().copied());
    let b: Vec<C64> = tx_baseband_ofdm_signal(q, g.sub, g.pilots).take((bits.len() + 4) * g.sym()).collect();
    let n = b.len() * sps;
    let tx = take_up_to(tx_ofdm_qpsk_signal(bits.iter().copied(), g.sub, g.pilots, fs, sr, fc), n + sps + 1);
    same_wave(
        "OFDM",
        &tx,
        n,
        |i| (b[i / sps] * C64::from_polar(1.0, phase(fc, i, fs))).re,
        |i| 3.0 * wtol(fc, i, fs) * (1.0 + b[i / sps].norm()),
    )?;
    held(n > 0, &[bucket("samples", n), bucket("subcarriers", g.sub)])
}

fn pb_loop(c: &Pb) -> Res {
    let bits = c.msg.bits();
    let g = &c.grid;
    let (fs, sps, fc, sr) = (c.link.fs(), c.link.sps, c.link.fc, c.link.sr);
    let blocks = (bits.len() / 2).div_ceil(g.data());
    let limit = (blocks + 1) * g.sym() * sps + 1;
    let tx = take_up_to(tx_ofdm_qpsk_signal(bits.iter().copied(), g.sub, g.pilots, fs, sr, fc), limit);
    ensure!(tx.len() == blocks * g.sym() * sps, "{} samples for {} bits", tx.len(), bits.len());
    let rx = take_up_to(rx_ofdm_qpsk_signal(tx.iter().map(|s| s * c.gain), g.sub, g.pilots, fs, sr, fc), 2 * (blocks + 1) * g.data() + 1);
    ensure!(rx.len() == 2 * blocks * g.data(), "{} bits received for {blocks} OFDM symbols", rx.len());
    let whole = bits.len() / 2 * 2;
    same_bits("OFDM loopback", &rx[..whole], &bits[..whole])?;
    held(whole > 0, &[bucket("bits", whole), bucket("subcarriers", g.sub), bucket("sps", sps)])
}

fn pb_soak() -> BoxedStrategy<Pb> {
    (grid(64), ortho_link(2, 64), any::<u64>(), gain(), soak_len(1_000_000))
        .prop_map(|(grid, link, seed, gain, total)| {
            let len = total / (link.sps * grid.sym() / (2 * grid.data()) + 1);
            Pb { grid, link, gain, msg: Msg::Gen { len: len.max(4), seed, pattern: 9 } }
        })
        .boxed()
}

fn ofdm_recv((g, l, w): &(Grid, Link, Wave)) -> Res {
        let s = w.samples();
        let (fs, sps, fc, sr) = (l.fs(), l.sps, l.fc, l.sr);
        let z: Vec<C64> = s
            .chunks_exact(sps)
            .enumerate()
            .map(|(k, b)| {
                b.iter().enumerate().map(|(j, &x)| C64::new(x * ccos(fc, k * sps + j, fs), -x * csin(fc, k * sps + j, fs))).sum()
            })
            .collect();
        let mut want = Vec::new();
        let mut sure = Vec::new();
        for (b, part) in z.chunks_exact(g.sym()).zip(s.chunks_exact(g.sym() * sps)) {
        let raw = part.iter().map(|x| x.abs()).sum::<f64>() + 1e-200;
            let f = dft(&b[g.cp()..], false);
            let scale: f64 = b.iter().map(|x| x.norm()).sum::<f64>() + 1e-200;
            for car in g.carriers() {
                let v = f[(car + g.sub - g.sub / 2) % g.sub];
                for x in [v.re, v.im] {
                    want.push(x > 0.0);
                    // The integrals themselves may cancel: compare with the raw samples as well.
                    sure.push(x.abs() > 1e-6 * scale && x.abs() > 1e-9 * raw);
                }
            }
        }
            let rx = take_up_to(rx_ofdm_qpsk_signal(s.iter().copied(), g.sub, g.pilots, fs, sr, fc), want.len() + 2 * g.sub);
        let m = same_bits_where("OFDM decisions", &rx, &want, |i| sure[i])?;
        held(m > 0, &[bucket("samples", s.len()), bucket("subcarriers", g.sub)])
    }

fn c11() -> Vec<Law> {
    vec![
        law("ofdm_waveform", "at least one sample was compared with Re(baseband e^jwt)", cases(2500, 50_000), || pb(false, 64, 12_000), pb_wave),
        law("ofdm_loopback", "at least one QPSK symbol was sent", cases(2500, 50_000), || pb(true, 64, 12_000), pb_loop),
        law("ofdm_long_waveform", "as ofdm_waveform", cases(12, 100), pb_soak, pb_wave),
        law("ofdm_long_loopback", "as ofdm_loopback", cases(12, 100), pb_soak, pb_loop),
        law("ofdm_receiver_long", "as ofdm_receiver", cases(4, 60), || (grid(48), link(1, 40), long_wave(400_000)).boxed(), ofdm_recv),
        law(
            "ofdm_receiver",
            "at least one decision away from the threshold was compared",
            cases(2500, 50_000),
            || (grid(48), link(1, 40), recv_wave(0, 8000)).boxed(),
            ofdm_recv,
        ),
    ]
}

// ---- C16 ------------------------------------------------------------------------------------

fn blocks_ok(n: usize, samples: usize) -> bool {
    samples % 10 == 0 && (samples / 10 == n.div_ceil(7) || samples / 10 == n / 7 + 1)
}

fn fods(bits: &[bool]) -> Result<Vec<C64>, String> {
    let tx = take_up_to(tx_baseband_fh_ofdm_dcsk_signal(bits.iter().copied()), (bits.len() / 7 + 3) * 10);
    ensure!(blocks_ok(bits.len(), tx.len()), "{} samples for {} bits", tx.len(), bits.len());
    for (i, s) in tx.iter().enumerate() {
        ensure!(s.re.is_finite() && s.im.is_finite(), "sample {i} is {s}");
    }
    Ok(tx)
}

fn fods_wave((l, m): &(Link, Msg)) -> Res {
        let bits = fit(m.clone(), l.sps * 2, if m.len() > 5000 { 600_000 } else { 20_000 }).bits();
        let (fs, sps, fc) = (l.fs(), l.sps, l.fc);
        let b = fods(&bits)?;
        let tx = take_up_to(tx_fh_ofdm_dcsk_signal_2(bits.iter().copied(), fs, l.sr, fc), (b.len() + 1) * sps);
        same_wave("FH-OFDM-DCSK", &tx, b.len() * sps, |i| (b[i / sps] * C64::from_polar(1.0, -phase(fc, i, fs))).re, |i| 3.0 * wtol(fc, i, fs))?;
        held(!b.is_empty(), &[bucket("samples", tx.len()), bucket("sps", sps)])
    }

fn fods_hopped((h, m): &(HopSpec, Msg)) -> Res {
        let bits = fit(m.clone(), h.sps * 2, if m.len() > 5000 { 400_000 } else { 12_000 }).bits();
        let (fs, sps) = (h.fs(), h.sps);
        let b = fods(&bits)?;
        let tx = take_up_to(tx_fh_ofdm_dcsk_signal(bits.iter().copied(), h.low(), h.high(), h.num, fs, h.sr), (b.len() + 1) * sps);
        ensure!(tx.len() == b.len() * sps, "{} samples for {} baseband samples", tx.len(), b.len());
        let freqs = h.freqs();
        let mut matched = Vec::new();
        for (k, z) in b.iter().enumerate() {
            let fits: Vec<usize> = (0..freqs.len())
                .filter(|&f| {
                    (0..sps).all(|j| {
                        let i = k * sps + j;
                        let w = (z * C64::from_polar(1.0, -phase(freqs[f], i, fs))).re;
                        (tx[i] - w).abs() <= 3.0 * wtol(freqs[f], i, fs)
                    })
                })
                .collect();
            ensure!(!fits.is_empty(), "baseband sample {k} is on none of the hop frequencies");
            matched.push(if fits.len() == 1 { Some(fits[0]) } else { None });
        }
        for (k, block) in matched.chunks(h.num).enumerate() {
            let mut seen: Vec<usize> = block.iter().flatten().copied().collect();
            let n = seen.len();
            seen.sort();
            seen.dedup();
            ensure!(seen.len() == n, "hop block {k} repeats a frequency: {block:?}");
        }
        held(matched.iter().flatten().count() > 1, &[bucket("freqs", h.num), bucket("samples", tx.len())])
    }

fn c16() -> Vec<Law> {
    vec![
        law(
            "passband_waveform_long",
            "as passband_waveform",
            cases(4, 60),
            || (link(1, 64), 100_000usize..200_000, any::<u64>()).prop_map(|(l, len, seed)| (l, Msg::Gen { len, seed, pattern: 9 })).boxed(),
            fods_wave,
        ),
        law(
            "hopped_waveform_long",
            "as hopped_waveform",
            cases(4, 60),
            || (HopSpec::strategy(4, 32), 50_000usize..100_000, any::<u64>()).prop_map(|(h, len, seed)| (h, Msg::Gen { len, seed, pattern: 9 })).boxed(),
            fods_hopped,
        ),
        law(
            "baseband_loopback",
            "at least one whole block was sent",
            cases(3000, 60_000),
            || (msg(3000), gain(), 0.0f64..6.3).boxed(),
            |(m, g, ph): &(Msg, f64, f64)| {
                let bits = m.bits();
                let tx = fods(&bits)?;
                let ch = C64::from_polar(*g, *ph);
                let rx = take_up_to(rx_baseband_fh_ofdm_dcsk_signal(tx.iter().map(|s| s * ch)), bits.len() + 30);
                ensure!(rx.len() == tx.len() / 10 * 7, "{} bits received from {} samples", rx.len(), tx.len());
                same_bits("loopback", &rx[..bits.len()], &bits)?;
                held(bits.len() >= 7, &[bucket("bits", bits.len()), format!("tail:{}", bits.len() % 7)])
            },
        ),
        law(
            "long_loopback",
            "always",
            cases(6, 60),
            || (any::<u64>(), 100_000usize..250_000).boxed(),
            |(seed, n): &(u64, usize)| {
                let bits = Msg::Gen { len: *n, seed: *seed, pattern: 9 }.bits();
                let tx = fods(&bits)?;
                let rx = take_up_to(rx_baseband_fh_ofdm_dcsk_signal(tx.into_iter()), bits.len() + 30);
                ensure!(rx.len() >= bits.len(), "{} bits received", rx.len());
                same_bits("loopback", &rx[..bits.len()], &bits)?;
                held(true, &[])
            },
        ),
        law(
            "symbol_structure",
            "at least two blocks were sent",
            cases(2500, 40_000),
            || long_msg(600, 200_000),
            |m: &Msg| {
                let bits = m.bits();
                let tx = fods(&bits)?;
                let ones = fods(&vec![true; bits.len()])?;
                let whole = bits.len() / 7;
                let mut blocks: Vec<Vec<f64>> = Vec::new();
                for k in 0..whole {
                    let s = &tx[10 * k..10 * k + 10];
                    close("cyclic prefix", &s[..2], &s[8..], 1e-12)?;
                    let f = dft(&s[2..], false);
                    let f1 = dft(&ones[10 * k + 2..10 * k + 10], false);
                    for c in 0..8 {
                        // Same magnitudes and places whatever the data, the data only in the signs.
                        ensure!(f[c].im.abs() < 1e-9, "carrier {c} of block {k} is {}", f[c]);
                        ensure!((f[c].re.abs() - f1[c].re.abs()).abs() < 1e-9, "carrier {c} of block {k}: {} vs {}", f[c], f1[c]);
                    }
                    let minus = (0..8).filter(|&c| f[c].re * f1[c].re < -1e-13).count();
                    let zeros = bits[7 * k..7 * k + 7].iter().filter(|b| !**b).count();
                    let sure = (0..8).all(|c| f1[c].re.abs() > 1e-6);
                    ensure!(!sure || minus == zeros, "block {k}: {minus} carriers inverted for {zeros} zeros");
                    blocks.push(f.iter().map(|x| x.re.abs()).collect());
                }
                // Eight consecutive values of the Chebyshev map per block.
                for (k, b) in blocks.iter().enumerate() {
                    let near = |set: &Vec<f64>, v: f64| set.iter().any(|x| (x - v).abs() < 1e-6);
                    let outside: Vec<f64> = b.iter().map(|v| (1.0 - 2.0 * v * v).abs()).filter(|&v| !near(b, v)).collect();
                    ensure!(outside.len() <= 1, "block {k} is not a run of the chaotic map: {b:?}");
                    if let (Some(&v), Some(next)) = (outside.first(), blocks.get(k + 1)) {
                        ensure!(near(next, v), "block {} does not continue the chaotic sequence of block {k}", k + 1);
                    }
                    let hi = b.iter().fold(0f64, |a, &x| a.max(x));
                    ensure!(hi <= 1.0 + 1e-9, "block {k} exceeds 1: {hi}");
                }
                held(whole > 1, &[bucket("blocks", whole)])
            },
        ),
        law(
            "receiver_length",
            "at least one whole block of samples",
            cases(1500, 20_000),
            || (size(0, 500), any::<u64>(), 0u8..3).boxed(),
            |(n, seed, kind): &(usize, u64, u8)| {
                let rx = take_up_to(rx_baseband_fh_ofdm_dcsk_signal(symbols(*n, *seed, *kind).into_iter()), n + 10);
                ensure!(rx.len() == n / 10 * 7, "{} bits from {n} samples", rx.len());
                held(*n >= 10, &[bucket("samples", *n)])
            },
        ),
        law(
            "passband_waveform",
            "at least one sample was compared with Re(baseband e^-jwt)",
            cases(2000, 40_000),
            || (link(1, 200), msg(300)).boxed(),
            fods_wave,
        ),
        law(
            "hopped_waveform",
            "at least two baseband samples were matched with a hop frequency",
            cases(1500, 30_000),
            || (HopSpec::strategy(4, 60), msg(200)).boxed(),
            fods_hopped,
        ),
    ]
}
