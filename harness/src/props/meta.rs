//! C25: streaming behaviour of every modem and adaptor. C28: invalid configurations are rejected.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::bpf::{bandpass, butterpass};
use komunikilo::bpsk::*;
use komunikilo::cdma::*;
use komunikilo::chaos::{Chebyshev, LogisticMap};
use komunikilo::csk::tx_baseband_csk;
use komunikilo::dcsk::*;
use komunikilo::fh::*;
use komunikilo::fh_css::tx_fh_css_signal;
use komunikilo::fh_ofdm_dcsk::*;
use komunikilo::fm::*;
use komunikilo::fsk::*;
use komunikilo::hadamard::HadamardMatrix;
use komunikilo::iter::Iter;
use komunikilo::ofdm::*;
use komunikilo::qpsk::*;
use komunikilo::ssca::ssca_base;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C25", laws: c25, assumptions: &["outputs are compared with a relative tolerance of 1e-9; a stage may read up to two input blocks ahead of what it has emitted"] },
        Property { id: "C28", laws: c28, assumptions: &["only the configurations the code documents as invalid by an assertion"] },
    ]
}

// ---- C25 ------------------------------------------------------------------------------------

type Stream = Box<dyn Iterator<Item = C64>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Alphabet {
    Bits,
    Real,
    Complex,
}

/// A stage of the library with its block sizes.
struct Stage {
    name: &'static str,
    alphabet: Alphabet,
    inb: usize,
    outb: usize,
    run: Box<dyn Fn(Stream) -> Stream>,
}

/// Rates and shapes for all the stages.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    link: Link,
    key: String,
    sub: usize,
    pilots: usize,
    num: usize,
    lo: f64,
    hi: f64,
    taps: usize,
}

fn shape() -> BoxedStrategy<Shape> {
    (
        (2usize..12, symbol_rate(), 0.0f64..1.0),
        key(16),
        (8usize..40, 1usize..5),
        1usize..20,
        (0.0f64..1.0, 0.0f64..1.0),
        1usize..9,
    )
        .prop_map(|((sps, sr, u), key, (sub, pilots), num, (a, b), taps)| {
            let sps = 2 * key.len() * (sps / 2).max(1);
            Shape {
                link: Link { sps, sr, fc: u * (sps * sr / 2) as f64 },
                key,
                sub,
                pilots,
                num,
                lo: a.min(b),
                hi: a.max(b),
                taps,
            }
        })
        .boxed()
}

const STAGES: usize = 50;

fn bits_in(s: Stream) -> impl Iterator<Item = bool> {
    s.map(|z| z.re > 0.5)
}
fn real_in(s: Stream) -> impl Iterator<Item = f64> {
    s.map(|z| z.re)
}
/// Like `map`, but every way of reading reaches the library's own iterator.
struct Through<I, T>(I, fn(T) -> C64);

impl<T, I: Iterator<Item = T>> Iterator for Through<I, T> {
    type Item = C64;
    fn next(&mut self) -> Option<C64> {
        self.0.next().map(self.1)
    }
    fn nth(&mut self, n: usize) -> Option<C64> {
        self.0.nth(n).map(self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn last(self) -> Option<C64> {
        self.0.last().map(self.1)
    }
    fn fold<B, F: FnMut(B, C64) -> B>(self, init: B, mut f: F) -> B {
        let g = self.1;
        self.0.fold(init, |acc, x| f(acc, g(x)))
    }
}

fn bits_out(i: impl Iterator<Item = bool> + 'static) -> Stream {
    Box::new(Through(i, |b| C64::new(if b { 1.0 } else { 0.0 }, 0.0)))
}
fn real_out(i: impl Iterator<Item = f64> + 'static) -> Stream {
    Box::new(Through(i, |x| C64::new(x, 0.0)))
}

fn stage(s: &Shape, which: usize) -> Stage {
    use Alphabet::*;
    let (sps, sr, fc, fs) = (s.link.sps, s.link.sr, s.link.fc, s.link.fs());
    // The iterators borrow the key for as long as they live.
    let key: &'static [bool] = Box::leak(unbits(&s.key).into_boxed_slice());
    let chips = key.len();
    let (sub, pilots, num) = (s.sub, s.pilots, s.num);
    let nyq = (fs / 2) as f64;
    let (low, high) = (s.lo * nyq, s.hi * nyq);
    let (data, sym) = (sub - pilots, sub + sub / 4);
    let fft_len = 2 * sub;
    let (taps, lo) = (s.taps, s.lo);
    macro_rules! st {
        ($name:expr, $al:expr, $inb:expr, $outb:expr, |$i:ident| $body:expr) => {
            Stage { name: $name, alphabet: $al, inb: $inb, outb: $outb, run: Box::new(move |$i| $body) }
        };
    }
    match which % STAGES {
        0 => st!("tx_baseband_bpsk", Bits, 1, 1, |i| Box::new(tx_baseband_bpsk_signal(bits_in(i)))),
        1 => st!("rx_baseband_bpsk", Complex, 1, 1, |i| bits_out(rx_baseband_bpsk_signal(i))),
        2 => st!("tx_bpsk", Bits, 1, sps, |i| real_out(tx_bpsk_signal(bits_in(i), fs, sr, fc))),
        3 => st!("rx_bpsk", Real, sps, 1, |i| bits_out(rx_bpsk_signal(real_in(i), fs, sr, fc))),
        4 => st!("tx_baseband_qpsk", Bits, 2, 1, |i| Box::new(tx_baseband_qpsk_signal(bits_in(i)))),
        5 => st!("rx_baseband_qpsk", Complex, 1, 2, |i| bits_out(rx_baseband_qpsk_signal(i))),
        6 => st!("tx_qpsk", Bits, 2, sps, |i| real_out(tx_qpsk_signal(bits_in(i), fs, sr, fc))),
        7 => st!("rx_qpsk", Real, sps, 2, |i| bits_out(rx_qpsk_signal(real_in(i), fs, sr, fc))),
        8 => st!("tx_baseband_cdma", Bits, 1, chips, |i| bits_out(tx_baseband_cdma(bits_in(i), key))),
        9 => st!("rx_baseband_cdma", Bits, chips, 1, |i| bits_out(rx_baseband_cdma(bits_in(i), key))),
        10 => st!("tx_cdma_bpsk", Bits, 1, sps, |i| real_out(tx_cdma_bpsk_signal(bits_in(i), fs, sr, fc, key))),
        11 => st!("rx_cdma_bpsk", Real, sps, 1, |i| bits_out(rx_cdma_bpsk_signal(real_in(i), fs, sr, fc, key))),
        12 => st!("tx_cdma_qpsk", Bits, 2, sps, |i| real_out(tx_cdma_qpsk_signal(bits_in(i), fs, sr, fc, key))),
        13 => st!("rx_cdma_qpsk", Real, sps, 2, |i| bits_out(rx_cdma_qpsk_signal(real_in(i), fs, sr, fc, key))),
        14 => st!("tx_coded_cdma", Bits, 56, 96 * sps, |i| real_out(tx_coded_cdma_bpsk_signal(bits_in(i), fs, sr, fc, key))),
        15 => st!("rx_coded_cdma", Real, 96 * sps, 56, |i| bits_out(rx_coded_cdma_bpsk_signal(real_in(i), fs, sr, fc, key))),
        16 => st!("tx_baseband_ofdm", Complex, data, sym, |i| Box::new(tx_baseband_ofdm_signal(i, sub, pilots))),
        17 => st!("rx_baseband_ofdm", Complex, sym, data, |i| Box::new(rx_baseband_ofdm_signal(i, sub, pilots))),
        18 => st!("tx_ofdm_qpsk", Bits, 2 * data, sym * sps, |i| real_out(tx_ofdm_qpsk_signal(bits_in(i), sub, pilots, fs, sr, fc))),
        19 => st!("rx_ofdm_qpsk", Real, sym * sps, 2 * data, |i| bits_out(rx_ofdm_qpsk_signal(real_in(i), sub, pilots, fs, sr, fc))),
        20 => st!("tx_fh_bpsk", Bits, 1, sps, |i| real_out(tx_fh_bpsk_signal(bits_in(i), low, high, num, fs, sr))),
        21 => st!("rx_fh_bpsk", Real, sps, 1, |i| bits_out(rx_fh_bpsk_signal(real_in(i), low, high, num, fs, sr))),
        22 => st!("tx_fh_css", Bits, 1, sps, |i| real_out(tx_fh_css_signal(bits_in(i), fs, sr, low, high, num))),
        23 => st!("tx_bfsk", Bits, 1, sps, |i| real_out(tx_bfsk_signal(bits_in(i), fs, sr, low, high))),
        24 => st!("tx_mfsk", Bits, 1, sps, |i| real_out(tx_mfsk_signal(bits_in(i), fs, sr, low, high, num))),
        25 => st!("tx_fsk_signal", Bits, 1, sps, |i| real_out(tx_fsk_signal(bits_in(i), fs, sr, &[high, low]))),
        26 => st!("tx_fsk", Bits, 1, sps, |i| real_out(tx_fsk(bits_in(i), fs, sr, fc))),
        27 => st!("rx_fsk", Real, sps, 1, |i| bits_out(rx_fsk(real_in(i), fs, sr, fc))),
        28 => st!("tx_fm", Real, 1, sps, |i| real_out(tx_fm(real_in(i), fs, sr, fc))),
        29 => st!("tx_csk", Bits, 1, 1, |i| real_out(tx_baseband_csk(bits_in(i)))),
        30 => st!("tx_dcsk", Bits, 1, 2, |i| real_out(tx_baseband_dcsk(bits_in(i)))),
        31 => st!("rx_dcsk", Real, 2, 1, |i| bits_out(rx_baseband_dcsk(real_in(i)))),
        32 => st!("tx_baseband_fh_ofdm_dcsk", Bits, 7, 10, |i| Box::new(tx_baseband_fh_ofdm_dcsk_signal(bits_in(i)))),
        33 => st!("rx_baseband_fh_ofdm_dcsk", Complex, 10, 7, |i| bits_out(rx_baseband_fh_ofdm_dcsk_signal(i))),
        34 => st!("tx_fh_ofdm_dcsk", Bits, 7, 10 * sps, |i| real_out(tx_fh_ofdm_dcsk_signal(bits_in(i), low, high, num, fs, sr))),
        35 => st!("tx_fh_ofdm_dcsk_2", Bits, 7, 10 * sps, |i| real_out(tx_fh_ofdm_dcsk_signal_2(bits_in(i), fs, sr, fc))),
        36 => st!("bandpass", Real, fft_len, fft_len, |i| real_out(bandpass(low, high, real_in(i), fs, fft_len))),
        37 => st!("convolve", Real, 1, 1, |i| {
            let f: Vec<f64> = (0..taps).map(|t| (t as f64 + 1.3).sin()).collect();
            real_out(real_in(i).convolve(f))
        }),
        39 => st!("tx_fh_bpsk_old", Bits, 1, sps, |i| real_out(tx_fh_bpsk_signal_old(bits_in(i), low, high, num, fs, sr, fc))),
        38 => st!("awgn with sigma 0", Real, 1, 1, |i| real_out(komunikilo::awgn(real_in(i), 0.0))),
        41 => st!("awgn_complex with sigma 0", Complex, 1, 1, |i| Box::new(komunikilo::awgn_complex(i, 0.0))),
        42 => st!("chunks", Complex, taps, taps, |i| Box::new(i.chunks(taps).flatten())),
        43 => st!("wchunks", Complex, taps, taps, |i| Box::new(i.wchunks(taps).flatten())),
        44 => st!("take_every", Complex, taps, 1, |i| Box::new(i.take_every(taps))),
        45 => st!("inflate", Complex, 1, num, |i| Box::new(i.inflate(num))),
        46 => st!("scale then integrate", Complex, 1, 1, |i| Box::new(i.scale(lo).integrate())),
        47 => st!("nintegrate_and_dump", Complex, taps, 1, |i| {
            real_out(i.map(|z| [z.re, z.im]).nintegrate_and_dump(taps).map(|[a, b]| a - 2.0 * b))
        }),
        48 => st!("nonvolve", Complex, 1, 1, |i| {
            let f: Vec<f64> = (0..taps).map(|t| (t as f64 + 0.7).sin()).collect();
            real_out(i.map(|z| [z.re, z.im]).nonvolve(f).map(|[a, b]| a - 2.0 * b))
        }),
        49 => st!("nintegrate", Complex, 1, 1, |i| real_out(i.map(|z| [z.re, z.im]).nintegrate().map(|[a, b]| a - 2.0 * b))),
        _ => st!("integrate_and_dump then inflate", Real, taps, num, |i| real_out(real_in(i).integrate_and_dump(taps).inflate(num))),
    }
}

fn input(al: Alphabet, seed: u64) -> impl Iterator<Item = C64> + Clone {
    (0u64..).map(move |k| {
        let mut r = Prng(mix(seed ^ mix(k)));
        match al {
            Alphabet::Bits => C64::new((r.next() & 1) as f64, 0.0),
            Alphabet::Real => C64::new(r.range(-1.0, 1.0), 0.0),
            Alphabet::Complex => C64::new(r.range(-1.0, 1.0), r.range(-1.0, 1.0)),
        }
    })
}

fn finite(st: &Stage, seed: u64, n: usize) -> Vec<C64> {
    let limit = (n / st.inb + 3) * st.outb + 64;
    take_up_to((st.run)(Box::new(input(st.alphabet, seed).take(n))), limit)
}

fn same(what: &str, a: &[C64], b: &[C64]) -> Result<(), String> {
    ensure!(a.len() == b.len(), "{what}: {} outputs and {}", a.len(), b.len());
    for i in 0..a.len() {
        let d = (a[i] - b[i]).norm();
        ensure!(d <= 1e-9 * (1.0 + a[i].norm()) || (a[i].re.is_nan() && b[i].re.is_nan()), "{what}: output {i} is {} and {}", a[i], b[i]);
    }
    Ok(())
}

fn tag(st: &Stage) -> Vec<String> {
    vec![format!("stage:{}", st.name)]
}

/// Number of blocks that keeps the work bounded; a rare case runs long.
fn blocks(st: &Stage, want: usize) -> usize {
    let cap = if want > 60 { 300_000 } else { 20_000 };
    (1 + want).min(1 + cap / st.inb.max(st.outb))
}

/// The bandpass filter takes whole blocks only.
fn whole(st: &Stage, n: usize) -> usize {
    if st.name == "bandpass" {
        n / st.inb * st.inb
    } else {
        n
    }
}

fn case() -> BoxedStrategy<(Shape, usize, usize, usize, u64)> {
    (shape(), 0..STAGES, prop_oneof![40 => size(0, 60), 1 => 1000usize..20_000], 0usize..40, any::<u64>()).boxed()
}

fn c25() -> Vec<Law> {
    vec![
        law(
            "output_is_prefix_stable",
            "at least one whole block went through before the rest of the stream arrived",
            cases(4000, 80_000),
            case,
            |(s, which, n, extra, seed): &(Shape, usize, usize, usize, u64)| {
                let st = stage(s, *which);
                let k = blocks(&st, *n);
                let full_len = k * st.inb + whole(&st, extra * st.inb.min(60) / 7);
                let short = finite(&st, *seed, k * st.inb);
                let full = finite(&st, *seed, full_len);
                let sure = k * st.outb;
                ensure!(short.len() >= sure && full.len() >= sure, "{}: {} and {} outputs for {k} blocks of {}", st.name, short.len(), full.len(), st.outb);
                same(st.name, &short[..sure], &full[..sure])?;
                held(full_len > k * st.inb, &tag(&st))
            },
        ),
        law(
            "incremental_output",
            "always",
            cases(3000, 60_000),
            case,
            |(s, which, n, extra, seed): &(Shape, usize, usize, usize, u64)| {
                // From an endless source, m outputs need no more input than their own blocks and
                // a little look-ahead, and equal the outputs of a finite run.
                let st = stage(s, *which);
                let k = blocks(&st, *n);
                let m = (k * st.outb).saturating_sub(extra % st.outb.max(1));
                let used = Rc::new(Cell::new(0usize));
                let u2 = used.clone();
                let cap = (k + 4) * st.inb + 64;
                let src = input(st.alphabet, *seed).map(move |x| {
                    u2.set(u2.get() + 1);
                    // An over-eager stage would never return.
                    assert!(u2.get() <= cap, "read {} inputs before giving its outputs", u2.get());
                    x
                });
                let out: Vec<C64> = (st.run)(Box::new(src)).take(m).collect();
                ensure!(out.len() == m, "{}: an endless source gave only {} outputs", st.name, out.len());
                let need = m.div_ceil(st.outb) + 2;
                ensure!(used.get() <= need * st.inb + 8, "{}: {} inputs read for {m} outputs", st.name, used.get());
                let want = finite(&st, *seed, (k + 1) * st.inb);
                same(st.name, &out, &want[..m])?;
                held(true, &tag(&st))
            },
        ),
        law(
            "instances_are_independent",
            "at least two outputs of each instance",
            cases(3000, 60_000),
            case,
            |(s, which, n, _, seed): &(Shape, usize, usize, usize, u64)| {
                let st = stage(s, *which);
                let k = blocks(&st, *n);
                let len = k * st.inb;
                let (a, b) = (finite(&st, *seed, len), finite(&st, !seed, len));
                same("the same stream again", &a, &finite(&st, *seed, len))?;
                let mut r = Prng(*seed);
                let mut ia = (st.run)(Box::new(input(st.alphabet, *seed).take(len))).take(a.len() + 1);
                let mut ib = (st.run)(Box::new(input(st.alphabet, !seed).take(len))).take(b.len() + 1);
                let (mut va, mut vb) = (Vec::new(), Vec::new());
                for _ in 0..a.len() + b.len() + 50 {
                    let na = r.below(7);
                    va.extend(ia.by_ref().take(na));
                    let nb = r.below(7);
                    vb.extend(ib.by_ref().take(nb));
                }
                va.extend(ia);
                vb.extend(ib);
                same(st.name, &va, &a)?;
                same(st.name, &vb, &b)?;
                held(a.len() > 1, &tag(&st))
            },
        ),
        law(
            "every_way_of_reading",
            "at least one output is skipped",
            cases(3000, 60_000),
            case,
            |(s, which, n, extra, seed): &(Shape, usize, usize, usize, u64)| {
                // Skipping, stepping, or asking for the last output only: the same outputs.
                let st = stage(s, *which);
                let len = blocks(&st, *n) * st.inb + whole(&st, extra % st.inb);
                let want = finite(&st, *seed, len);
                let open = || (st.run)(Box::new(input(st.alphabet, *seed).take(len)));
                let mut r = Prng(*seed);
                let mut it = open();
                let most = [3, 2 * st.outb + 2, want.len() + 2][r.below(3)];
                let mut at = 0;
                let mut skipped = 0;
                for _ in 0..want.len() + 1 {
                    let k = r.below(most);
                    let got = it.nth(k);
                    at += k;
                    skipped += k;
                    match (got, want.get(at)) {
                        (Some(g), Some(w)) => same(st.name, &[g], &[*w])?,
                        (None, None) => break,
                        (g, w) => return Err(format!("{}: output {at}, reached by skipping, is {g:?} and not {w:?}", st.name)),
                    }
                    at += 1;
                }
                let step = 1 + r.below(most);
                let got: Vec<C64> = open().step_by(step).take(want.len() + 1).collect();
                same(st.name, &got, &want.iter().step_by(step).copied().collect::<Vec<_>>())?;
                let skip = r.below(want.len() + 2);
                let got: Vec<C64> = open().skip(skip).take(want.len() + 1).collect();
                same(st.name, &got, &want[skip.min(want.len())..])?;
                let last: Vec<C64> = open().last().into_iter().collect();
                same(st.name, &last, &want[want.len().saturating_sub(1)..])?;
                held(skipped > 0, &tag(&st))
            },
        ),
        law(
            "size_hints_hold",
            "at least one output",
            cases(2000, 30_000),
            case,
            |(s, which, n, extra, seed): &(Shape, usize, usize, usize, u64)| {
                let st = stage(s, *which);
                let len = blocks(&st, *n) * st.inb + whole(&st, extra % st.inb);
                let total = finite(&st, *seed, len).len();
                let mut it = (st.run)(Box::new(input(st.alphabet, *seed).take(len)));
                let mut r = Prng(*seed);
                let mut left = total;
                for _ in 0..4 {
                    let (lo, hi) = it.size_hint();
                    ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{}: size_hint ({lo}, {hi:?}) with {left} outputs left", st.name);
                    let skip = r.below(left + 1).min(left);
                    if skip > 0 {
                        it.nth(skip - 1);
                    }
                    left -= skip;
                }
                held(total > 0, &tag(&st))
            },
        ),
        law(
            "butterworth_blocks",
            "more than one block was read",
            cases(3, 30),
            || (1000usize..100_000, 0.08f64..0.5, 0.08f64..0.4, 1usize..60_000, any::<u64>()).boxed(),
            |&(fs, lo, width, extra, seed): &(usize, f64, f64, usize, u64)| {
                // The zero-phase filter looks ahead by blocks of 81920 samples, and no further.
                const BLOCK: usize = 81_920;
                let hi = (lo + width).min(2.8 * lo).min(0.92);
                let nyq = fs as f64 / 2.0;
                let open = |seed, n: usize, used: &Rc<Cell<usize>>| {
                    let used = used.clone();
                    let src = input(Alphabet::Real, seed).take(n).map(move |z| {
                        used.set(used.get() + 1);
                        z.re
                    });
                    butterpass(lo * nyq, hi * nyq, src, fs).map(|x| C64::new(x, 0.0))
                };
                let (used, other) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
                let prefix: Vec<C64> = open(seed, BLOCK, &other).take(BLOCK + 2).collect();
                ensure!(prefix.len() == BLOCK, "{} outputs for {BLOCK} inputs", prefix.len());
                // Of two interleaved instances, one stops early and one goes on.
                let mut a = open(seed, 50 * BLOCK, &used);
                let mut b = open(!seed, extra, &other);
                let (mut va, mut vb) = (Vec::new(), Vec::new());
                let mut r = Prng(seed);
                while va.len() < BLOCK {
                    let na = (1 + r.below(20_000)).min(BLOCK - va.len());
                    va.extend(a.by_ref().take(na));
                    let nb = r.below(20_000);
                    vb.extend(b.by_ref().take(nb));
                }
                ensure!(used.get() <= 2 * BLOCK + 8, "{} inputs read for {BLOCK} outputs", used.get());
                vb.extend(b);
                same("the first block of a longer stream", &va, &prefix)?;
                same("the other instance", &vb, &open(!seed, extra, &other).collect::<Vec<_>>())?;
                let tail: Vec<C64> = a.take(extra).collect();
                let (lo_hint, hi_hint) = open(seed, extra, &other).size_hint();
                ensure!(lo_hint <= extra && hi_hint.is_none_or(|h| h >= extra), "size_hint ({lo_hint}, {hi_hint:?}) for {extra} samples");
                ensure!(used.get() <= 3 * BLOCK + 8, "{} inputs read for {} outputs", used.get(), BLOCK + extra);
                ensure!(tail.len() == extra, "{} outputs of the second block instead of {extra}", tail.len());
                held(true, &[])
            },
        ),
        law(
            "no_output_from_no_input",
            "always",
            cases(400, 2000),
            || (shape(), 0..STAGES).boxed(),
            |(s, which): &(Shape, usize)| {
                let st = stage(s, *which);
                let got = finite(&st, 1, 0).len();
                let max = match st.name {
                    // The transmitter flushes one padded block; a filter rings out.
                    n if n.contains("tx") && n.contains("fh_ofdm_dcsk") => st.outb,
                    "convolve" | "nonvolve" => s.taps,
                    "wchunks" => st.outb,
                    _ => 0,
                };
                ensure!(got <= max, "{}: {got} outputs from an empty stream", st.name);
                held(true, &tag(&st))
            },
        ),
    ]
}

// ---- C28 ------------------------------------------------------------------------------------

/// How a configuration is spoiled.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Spoil {
    /// A sample rate that is not a multiple of the symbol rate.
    Ratio(usize),
    /// A carrier (or highest frequency) above Nyquist, by this factor (and 1 Hz).
    Nyquist(f64),
    /// No spoiling: the configuration must be accepted.
    Nothing,
    /// The limit: carrier exactly at fs / 2.
    Limit,
}

fn spoil() -> BoxedStrategy<Spoil> {
    prop_oneof![
        3 => prop_oneof![1usize..1000, Just(0usize), Just(usize::MAX), any::<usize>()].prop_map(Spoil::Ratio),
        3 => prop_oneof![Just(1.0f64), 1.0f64..1.2, 1.0f64..100.0].prop_map(Spoil::Nyquist),
        1 => Just(Spoil::Nothing),
        1 => Just(Spoil::Limit),
    ]
    .boxed()
}

const GUARDED: [&str; 18] = [
    "tx_bpsk", "tx_cdma_bpsk", "rx_cdma_bpsk", "tx_cdma_qpsk", "rx_cdma_qpsk", "tx_coded_cdma", "rx_coded_cdma", "tx_fh_bpsk",
    "rx_fh_bpsk", "tx_fh_css", "tx_bfsk", "tx_mfsk", "tx_fsk_signal", "tx_fh_ofdm_dcsk", "tx_fh_ofdm_dcsk_2", "tx_ofdm_qpsk", "rx_ofdm_qpsk",
    "tx_fh_bpsk_old",
];

/// Builds the named modem and takes one output.
fn build(name: &str, fs: usize, sr: usize, f: f64, low: f64, num: usize, key: &'static [bool]) -> usize {
    let bits = || (0..200).map(|i| i % 3 == 0);
    let wave = || (0..200).map(|i| (i as f64).sin());
    let n = 2;
    let top = (fs / 2) as f64;
    match name {
        "tx_bpsk" => tx_bpsk_signal(bits(), fs, sr, f).take(n).count(),
        "tx_cdma_bpsk" => tx_cdma_bpsk_signal(bits(), fs, sr, f, key).take(n).count(),
        "rx_cdma_bpsk" => rx_cdma_bpsk_signal(wave(), fs, sr, f, key).take(n).count(),
        "tx_cdma_qpsk" => tx_cdma_qpsk_signal(bits(), fs, sr, f, key).take(n).count(),
        "rx_cdma_qpsk" => rx_cdma_qpsk_signal(wave(), fs, sr, f, key).take(n).count(),
        "tx_coded_cdma" => tx_coded_cdma_bpsk_signal(bits(), fs, sr, f, key).take(n).count(),
        "rx_coded_cdma" => rx_coded_cdma_bpsk_signal(wave(), fs, sr, f, key).take(n).count(),
        "tx_fh_bpsk" => tx_fh_bpsk_signal(bits(), 0.0, f, num, fs, sr).take(n).count(),
        "tx_fh_bpsk_old" => tx_fh_bpsk_signal_old(bits(), 0.0, top, num, fs, sr, f).take(n).count(),
        "rx_fh_bpsk" => rx_fh_bpsk_signal(wave(), 0.0, f, num, fs, sr).take(n).count(),
        "tx_fh_css" => tx_fh_css_signal(bits(), fs, sr, low, f, num).take(n).count(),
        "tx_bfsk" => tx_bfsk_signal(bits(), fs, sr, low, f).take(n).count(),
        "tx_mfsk" => tx_mfsk_signal(bits(), fs, sr, low, f, num).take(n).count(),
        "tx_fsk_signal" => tx_fsk_signal(bits(), fs, sr, &[f, low]).take(n).count(),
        "tx_fh_ofdm_dcsk" => tx_fh_ofdm_dcsk_signal(bits(), 0.0, f, num, fs, sr).take(n).count(),
        "tx_fh_ofdm_dcsk_2" => tx_fh_ofdm_dcsk_signal_2(bits(), fs, sr, f).take(n).count(),
        // The OFDM modem checks the rates only.
        "tx_ofdm_qpsk" => tx_ofdm_qpsk_signal(bits(), 8, 2, fs, sr, f).take(n).count(),
        _ => rx_ofdm_qpsk_signal(wave(), 8, 2, fs, sr, f).take(n).count(),
    }
}

fn c28() -> Vec<Law> {
    vec![
        law(
            "rates_and_carriers",
            "the configuration is invalid",
            cases(12_000, 200_000),
            || (prop_oneof![5 => rate(2, 64), 1 => rate(2, 3000)], spoil(), 0..GUARDED.len(), 0.0f64..1.0, 1usize..20).boxed(),
            |(r, sp, which, u, num): &(Rate, Spoil, usize, f64, usize)| {
                let name = GUARDED[*which];
                // Even rates, so that a one-chip key always fits.
                let (sps, sr) = (r.sps + r.sps % 2, r.sr);
                let fs = sps * sr;
                let key: &'static [bool] = &[true];
                let top = (fs / 2) as f64;
                let (fs, f, bad) = match sp {
                    Spoil::Ratio(k) => {
                        // Near misses on both sides included.
                        let off = if sr == 1 { 0 } else if *k == usize::MAX { sr - 1 } else { 1 + k % (sr - 1) };
                        (fs + off, u * top, off > 0)
                    }
                    Spoil::Nyquist(m) => (fs, top * m + 1.0, !name.contains("_ofdm_qpsk")),
                    Spoil::Nothing => (fs, u * top, false),
                    Spoil::Limit => (fs, top, false),
                };
                // A band that is too high is so wherever it starts, even above the limit itself.
                let low = match num % 4 { 0 => 0.0, 1 => 0.7 * f, 2 if bad => f + 1.0, _ => f / *num as f64 };
                let out = guard(|| build(name, fs, sr, f, low, *num, key));
                if bad {
                    ensure!(out.is_err(), "{name} accepts a sample rate of {fs}, symbol rate {sr} and frequency {f}");
                } else {
                    ensure!(out.is_ok(), "{name} rejects a sample rate of {fs}, symbol rate {sr} and frequency {f}: {:?}", out.err());
                }
                held(bad, &[format!("modem:{name}"), format!("spoil:{}", ["ratio", "nyquist", "none", "limit"][match sp { Spoil::Ratio(_) => 0, Spoil::Nyquist(_) => 1, Spoil::Nothing => 2, Spoil::Limit => 3 }])])
            },
        ),
        law(
            "cdma_chips_fit_the_symbol",
            "the key does not fit",
            cases(6000, 100_000),
            || (prop_oneof![3 => 1usize..=130, 1 => 1usize..=1100], prop_oneof![2 => rate(2, 600).boxed(), 1 => rate(2, 4400).boxed()], 0usize..6, 0.0f64..1.0, 0usize..6).boxed(),
            |(len, r, which, u, times): &(usize, Rate, usize, f64, usize)| {
                let key: &'static [bool] = Box::leak(vec![true; *len].into_boxed_slice());
                let name = GUARDED[1 + which];
                // Often a whole number of samples for each chip.
                let r = Rate { sps: if *times > 0 { times * len } else { r.sps }, sr: r.sr };
                let fs = r.fs();
                // Each chip lasts a whole number of samples, and at least two.
                let fits = fs / 2 >= len * r.sr && fs % (len * r.sr) == 0;
                let out = guard(|| build(name, fs, r.sr, u * (fs / 2) as f64, 0.0, 1, key));
                ensure!(out.is_ok() == fits, "{name} {} {len} chips in {} samples: {:?}", if fits { "rejects" } else { "accepts" }, r.sps, out.err());
                held(!fits, &[format!("modem:{name}"), format!("fits:{fits}")])
            },
        ),
        law(
            "chaotic_maps_start_in_range",
            "the start is out of range",
            cases(4000, 40_000),
            || prop_oneof![
                3 => -3.0f64..3.0,
                1 => prop::sample::select(vec![0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-9, 1.0 + 1e-9, -1.0 - 1e-9, 1e9]),
            ]
            .prop_map(|x| x.to_bits())
            .boxed(),
            |bits: &u64| {
                let x = f64::from_bits(*bits);
                let l = guard(|| LogisticMap::new(3.9, x).take(2).count());
                let c = guard(|| Chebyshev::new(x).take(2).count());
                ensure!(l.is_ok() == (0.0..=1.0).contains(&x), "LogisticMap from {x}: {l:?}");
                ensure!(c.is_ok() == (-1.0..=1.0).contains(&x), "Chebyshev from {x}: {c:?}");
                held(l.is_err() || c.is_err(), &[])
            },
        ),
        law(
            "sizes_of_transforms",
            "the sizes are invalid",
            cases(800, 8000),
            || (1usize..80, 1usize..80, 0usize..400, any::<u64>()).boxed(),
            |(n, np, len, seed): &(usize, usize, usize, u64)| {
                let mut r = Prng(*seed);
                let s: Vec<f64> = (0..n + np).map(|_| r.range(-1.0, 1.0)).collect();
                let bad = n <= np;
                let out = guard(|| ssca_base(s.clone(), *n, *np).dim());
                ensure!(out.is_ok() != bad, "ssca_base with n = {n}, np = {np}: {out:?}");
                if !bad {
                    // Too few samples for the estimate.
                    let short = s[..n + np - 2 - (*seed as usize % (n + np - 2)).min(n + np - 2)].to_vec();
                    ensure!(guard(|| ssca_base(short.clone(), *n, *np).dim()).is_err(), "ssca_base accepts {} samples for n = {n}, np = {np}", short.len());
                }
                let fft = 2 * np;
                let w: Vec<f64> = (0..*len).map(|_| r.range(-1.0, 1.0)).collect();
                let whole = len % fft == 0;
                let f = guard(|| bandpass(0.0, 100.0, w.iter().copied(), 1000, fft).count());
                ensure!(f.is_ok() == whole && f.as_ref().map_or(true, |c| c == len), "bandpass of {len} samples in blocks of {fft}: {f:?}");
                held(bad || !whole, &[format!("ssca_bad:{bad}"), format!("partial_block:{}", !whole)])
            },
        ),
        law(
            "hadamard_sizes",
            "the size is not a power of two",
            cases(600, 600),
            || size(1, 300),
            |n: &usize| {
                let out = guard(|| HadamardMatrix::new(*n).key(0).len());
                let ok = n.is_power_of_two();
                if *n == 1 {
                    return trivial();
                }
                ensure!(out.is_ok() == ok, "HadamardMatrix::new({n}): {out:?}");
                held(!ok, &[])
            },
        ),
    ]
}
