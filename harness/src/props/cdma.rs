//! C05-C09: CDMA, Walsh codes, coded CDMA.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::cdma::*;
use komunikilo::hadamard::HadamardMatrix;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C05", laws: c05, assumptions: &["a tied majority (even key length, exactly half the chips flipped) and an incomplete trailing block are not compared"] },
        Property { id: "C06", laws: c06, assumptions: &["only configurations the transmitter accepts: at least two samples per chip, whole samples per chip", "decisions without a numerical margin are not compared"] },
        Property { id: "C07", laws: c07, assumptions: &["carrier on a multiple of half the chip rate, strictly between 0 and Nyquist"] },
        Property { id: "C08", laws: c08, assumptions: &["orders 2 to 4096"] },
        Property { id: "C09", laws: c09, assumptions: &["the code is observed through the coded CDMA modem with the channel applied to its hard decisions"] },
    ]
}

// ---- C05 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spread {
    key: String,
    msg: Msg,
    seed: u64,
}

fn spread(maxbits: usize) -> BoxedStrategy<Spread> {
    (prop_oneof![9 => key(300), 1 => key(6000)], long_msg(maxbits, 200_000), any::<u64>())
        .prop_map(|(key, m, seed)| { let room = if m.len() > 20_000 { 400_000 } else { 40_000 }; Spread { msg: fit(m, key.len(), room), key, seed } })
        .boxed()
}

fn chips(bits: &[bool], key: &[bool]) -> Vec<bool> {
    bits.iter().flat_map(|&b| key.iter().map(move |&k| b != k)).collect()
}

fn c05() -> Vec<Law> {
    vec![
        law(
            "spread_despread",
            "at least one bit and two chips per bit",
            cases(12_000, 150_000),
            || spread(4000),
            |c: &Spread| {
                let (bits, key) = (c.msg.bits(), unbits(&c.key));
                let want = chips(&bits, &key);
                let tx = take_up_to(tx_baseband_cdma(bits.iter().copied(), &key), want.len() + 2);
                same_bits("chips", &tx, &want)?;
                let rx = take_up_to(rx_baseband_cdma(tx.into_iter(), &key), bits.len() + 2);
                same_bits("despread", &rx, &bits)?;
                held(!bits.is_empty() && key.len() > 1, &[bucket("bits", bits.len()), bucket("chips", key.len())])
            },
        ),
        law(
            "corrects_chip_errors",
            "at least one chip was flipped",
            cases(12_000, 150_000),
            || spread(2000),
            |c: &Spread| {
                // Any fewer than half of the chips of every bit may be wrong.
                let (bits, key) = (c.msg.bits(), unbits(&c.key));
                let l = key.len();
                let mut s = chips(&bits, &key);
                let mut r = Prng(c.seed);
                let max = (l - 1) / 2;
                let mut flips = 0;
                for b in 0..bits.len() {
                    let f = match r.below(3) {
                        0 => max,
                        1 => 0,
                        _ => r.below(max + 1),
                    };
                    let mut pos: Vec<usize> = (0..l).collect();
                    for i in 0..f {
                        let j = i + r.below(l - i);
                        pos.swap(i, j);
                        s[b * l + pos[i]] ^= true;
                    }
                    flips += f;
                }
                let rx = take_up_to(rx_baseband_cdma(s.into_iter(), &key), bits.len() + 2);
                same_bits("despread with chip errors", &rx, &bits)?;
                held(flips > 0, &[bucket("flips", flips), bucket("chips", l)])
            },
        ),
        law(
            "majority_of_any_chips",
            "at least one block without a tie",
            cases(12_000, 150_000),
            || spread(4000),
            |c: &Spread| {
                let key = unbits(&c.key);
                let l = key.len();
                let mut stream = c.msg.bits();
                stream.truncate(stream.len() / l * l);
                let want: Vec<(bool, bool)> = stream
                    .chunks(l)
                    .map(|b| {
                        let ones = b.iter().zip(&key).filter(|(x, k)| x != k).count();
                        (2 * ones > l, 2 * ones != l)
                    })
                    .collect();
                let rx = take_up_to(rx_baseband_cdma(stream.iter().copied(), &key), want.len() + 2);
                let bits: Vec<bool> = want.iter().map(|w| w.0).collect();
                let m = same_bits_where("majority", &rx, &bits, |i| want[i].1)?;
                held(m > 0, &[bucket("blocks", want.len()), bucket("chips", l)])
            },
        ),
    ]
}

// ---- C06 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chip {
    key: String,
    link: Link,
    msg: Msg,
    gain: f64,
}

/// A CDMA link: `spc` (at least two) samples per chip.
fn cdma_link(keymax: usize) -> BoxedStrategy<(String, Link)> {
    (prop_oneof![14 => key(keymax), 1 => key(1100)], link(2, 64))
        .prop_map(|(key, l)| {
            let l = Link { sps: if key.len() > 128 { 2 + l.sps % 5 } else { l.sps }, ..l };
            let sps = l.sps * key.len();
            let scale = (sps * l.sr / 2) as f64 / ((l.fs() / 2) as f64).max(1e-9);
            // Spread the carrier over the wider band, or keep it as generated.
            let fc = if (l.sps + l.sr) % 2 == 0 { (l.fc * scale).min((sps * l.sr / 2) as f64) } else { l.fc };
            (key, Link { sps, sr: l.sr, fc })
        })
        .boxed()
}

fn chip_case(budget: usize) -> BoxedStrategy<Chip> {
    (cdma_link(48), msg(budget), gain())
        .prop_map(move |((key, link), m, gain)| Chip { msg: fit(m, link.sps, budget), key, link, gain })
        .boxed()
}

fn chip_soak(budget: usize) -> BoxedStrategy<Chip> {
    (cdma_link(64), any::<u64>(), gain(), soak_len(budget))
        .prop_map(move |((key, link), seed, gain, total)| Chip {
            msg: Msg::Gen { len: (total / link.sps).max(1), seed, pattern: 9 },
            key,
            link,
            gain,
        })
        .boxed()
}

fn cdma_bpsk(c: &Chip) -> Res {
    let (bits, key) = (c.msg.bits(), unbits(&c.key));
    let (fs, sps, fc, sr) = (c.link.fs(), c.link.sps, c.link.fc, c.link.sr);
    let spc = sps / key.len();
    let n = bits.len() * sps;
    let chip = |i: usize| nrz(key[(i % sps) / spc]);
    let tx = take_up_to(tx_cdma_bpsk_signal(bits.iter().copied(), fs, sr, fc, &key), n + sps + 1);
    same_wave("CDMA/BPSK", &tx, n, |i| nrz(bits[i / sps]) * chip(i) * ccos(fc, i, fs), |i| wtol(fc, i, fs))?;
    let rx = take_up_to(rx_cdma_bpsk_signal(tx.iter().map(|s| s * c.gain), fs, sr, fc, &key), bits.len() + 2);
    let sure: Vec<bool> = (0..bits.len()).map(|k| gram(fc, fs, sps, k).0 > 1e-6 * sps as f64).collect();
    let m = same_bits_where("CDMA/BPSK loopback", &rx, &bits, |i| sure[i])?;
    held(m > 0, &[bucket("bits", bits.len()), bucket("chips", key.len())])
}

fn cdma_qpsk(c: &Chip) -> Res {
    let (bits, key) = (c.msg.bits(), unbits(&c.key));
    let (fs, sps, fc, sr) = (c.link.fs(), c.link.sps, c.link.fc, c.link.sr);
    let spc = sps / key.len();
    let pairs = bits.len() / 2;
    let n = pairs * sps;
    let chip = |i: usize| nrz(key[(i % sps) / spc]);
    let tx = take_up_to(tx_cdma_qpsk_signal(bits.iter().copied(), fs, sr, fc, &key), n + sps + 1);
    same_wave(
        "CDMA/QPSK",
        &tx,
        n,
        |i| chip(i) * (nrz(bits[i / sps * 2]) * ccos(fc, i, fs) - nrz(bits[i / sps * 2 + 1]) * csin(fc, i, fs)),
        |i| 2.0 * wtol(fc, i, fs),
    )?;
    let rx = take_up_to(rx_cdma_qpsk_signal(tx.iter().map(|s| s * c.gain), fs, sr, fc, &key), bits.len() + 4);
    let sure: Vec<bool> = (0..pairs)
        .flat_map(|k| {
            let (cc, ss, sc) = gram(fc, fs, sps, k);
            [cc - sc.abs() > 1e-6 * sps as f64, ss - sc.abs() > 1e-6 * sps as f64]
        })
        .collect();
    let m = same_bits_where("CDMA/QPSK loopback", &rx, &bits[..2 * pairs], |i| sure[i])?;
    held(m > 0, &[bucket("bits", bits.len()), bucket("chips", key.len())])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChipRecv {
    key: String,
    link: Link,
    wave: Wave,
}

fn c06() -> Vec<Law> {
    vec![
        law("cdma_bpsk_link", "at least one bit with carrier energy was sent and compared", cases(3000, 60_000), || chip_case(20_000), cdma_bpsk),
        law("cdma_qpsk_link", "at least one bit with a positive I/Q margin was sent and compared", cases(3000, 60_000), || chip_case(20_000), cdma_qpsk),
        law("cdma_bpsk_long", "as cdma_bpsk_link", cases(12, 150), || chip_soak(700_000), cdma_bpsk),
        law("cdma_qpsk_long", "as cdma_qpsk_link", cases(12, 150), || chip_soak(700_000), cdma_qpsk),
        law(
            "cdma_receivers_correlate",
            "at least one decision away from the threshold was compared",
            cases(4000, 80_000),
            || (cdma_link(32), recv_wave(0, 12_000)).prop_map(|((key, link), wave)| ChipRecv { key, link, wave }).boxed(),
            |c: &ChipRecv| {
                let key = unbits(&c.key);
                let s = c.wave.samples();
                let (fs, sps, fc, sr) = (c.link.fs(), c.link.sps, c.link.fc, c.link.sr);
                let spc = sps / key.len();
                let chip = |i: usize| nrz(key[(i % sps) / spc]);
                let i = correlate(&s, sps, |n| chip(n) * ccos(fc, n, fs));
                let q = correlate(&s, sps, |n| -chip(n) * csin(fc, n, fs));
                let sure = |x: (f64, f64)| x.0.abs() > 1e-7 * x.1 && x.1 > 1e-250;
                let rx = take_up_to(rx_cdma_bpsk_signal(s.iter().copied(), fs, sr, fc, &key), i.len() + 2);
                let want: Vec<bool> = i.iter().map(|x| x.0 > 0.0).collect();
                let m = same_bits_where("CDMA/BPSK decisions", &rx, &want, |k| sure(i[k]))?;
                let both: Vec<(f64, f64)> = i.iter().zip(&q).flat_map(|(a, b)| [*a, *b]).collect();
                let rx = take_up_to(rx_cdma_qpsk_signal(s.iter().copied(), fs, sr, fc, &key), both.len() + 4);
                let want: Vec<bool> = both.iter().map(|x| x.0 > 0.0).collect();
                same_bits_where("CDMA/QPSK decisions", &rx, &want, |k| sure(both[k]))?;
                held(m > 0, &[bucket("symbols", i.len()), bucket("chips", key.len())])
            },
        ),
    ]
}

// ---- C07 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cell {
    order: u32,
    spc: usize,
    sr: usize,
    m: usize,
    /// (key index, amplitude)
    users: Vec<(usize, f64)>,
    bits: usize,
    seed: u64,
}

/// Up to `max_order`, and once in a while two orders more.
fn cell(max_order: u32, maxbits: usize, budget: usize) -> BoxedStrategy<Cell> {
    let some = prop::collection::vec((any::<u16>(), prop_oneof![Just(1.0f64), 0.05f64..20.0]), 1..40);
    // Every code in use, with equal or very different amplitudes.
    let full = (any::<u64>(), 0u8..3).prop_map(|(s, mode)| {
        let mut r = Prng(s);
        (0..1024)
            .map(|_| {
                let (k, u, one) = (r.next() as u16, r.range(0.05, 20.0), r.below(4) == 0);
                (k, if mode == 0 || (mode == 1 && one) { 1.0 } else { u })
            })
            .collect::<Vec<_>>()
    });
    (
        prop_oneof![24 => 1u32..=max_order, 1 => (max_order + 1)..=(max_order + 2)],
        size(2, 40),
        symbol_rate(),
        any::<u64>(),
        prop_oneof![4 => some.boxed(), 1 => full.boxed()],
        1usize..=maxbits,
        any::<u64>(),
    )
        .prop_map(move |(order, spc, sr, mm, us, bits, seed)| {
            let n = 1usize << order;
            let spc = if order > max_order { 2 + spc % 4 } else { spc };
            // Distinct key indices.
            let mut left: Vec<usize> = (0..n - 1).collect();
            let mut users = Vec::new();
            for (u, a) in us {
                if left.is_empty() {
                    break;
                }
                users.push((left.swap_remove(u as usize % left.len()), a));
            }
            let m = 1 + (mm as usize) % (spc - 1);
            let bits = bits.min((budget / (n * spc * users.len())).max(2));
            Cell { order, spc, sr, m, users, bits, seed }
        })
        .boxed()
}

impl Cell {
    fn n(&self) -> usize {
        1 << self.order
    }
    fn fs(&self) -> usize {
        self.spc * self.n() * self.sr
    }
    fn fc(&self) -> f64 {
        self.m as f64 * (self.n() * self.sr) as f64 / 2.0
    }
    fn data(&self, u: usize, even: bool) -> Vec<bool> {
        let len = if even { (self.bits + 1) & !1 } else { self.bits };
        Msg::Gen { len, seed: self.seed ^ mix(u as u64), pattern: 9 }.bits()
    }
}

fn add(sum: &mut Vec<f64>, s: impl Iterator<Item = f64>, a: f64, limit: usize) {
    for (i, x) in s.take(limit).enumerate() {
        if i == sum.len() {
            sum.push(0.0);
        }
        sum[i] += a * x;
    }
}

fn c07() -> Vec<Law> {
    vec![
        law(
            "bpsk_users_do_not_interfere",
            "at least two users shared the channel",
            cases(2500, 50_000),
            || cell(6, 60, 60_000),
            |c: &Cell| {
                let (fs, fc) = (c.fs(), c.fc());
                let h = HadamardMatrix::new(c.n());
                let limit = (c.bits + 1) * c.n() * c.spc;
                let mut sum = Vec::new();
                for (u, (k, a)) in c.users.iter().enumerate() {
                    add(&mut sum, tx_cdma_bpsk_signal(c.data(u, false).into_iter(), fs, c.sr, fc, h.key(*k)), *a, limit);
                }
                for (u, (k, _)) in c.users.iter().enumerate() {
                    let rx = take_up_to(rx_cdma_bpsk_signal(sum.iter().copied(), fs, c.sr, fc, h.key(*k)), c.bits + 2);
                    same_bits(&format!("user {u} (key {k})"), &rx, &c.data(u, false))?;
                }
                held(c.users.len() > 1, &[format!("order:{}", c.order), bucket("users", c.users.len())])
            },
        ),
        law(
            "qpsk_users_do_not_interfere",
            "at least two users shared the channel",
            cases(2500, 50_000),
            || cell(6, 60, 60_000),
            |c: &Cell| {
                let (fs, fc) = (c.fs(), c.fc());
                let h = HadamardMatrix::new(c.n());
                let limit = (c.bits + 3) * c.n() * c.spc;
                let mut sum = Vec::new();
                for (u, (k, a)) in c.users.iter().enumerate() {
                    add(&mut sum, tx_cdma_qpsk_signal(c.data(u, true).into_iter(), fs, c.sr, fc, h.key(*k)), *a, limit);
                }
                for (u, (k, _)) in c.users.iter().enumerate() {
                    let rx = take_up_to(rx_cdma_qpsk_signal(sum.iter().copied(), fs, c.sr, fc, h.key(*k)), c.bits + 5);
                    same_bits(&format!("user {u} (key {k})"), &rx, &c.data(u, true))?;
                }
                held(c.users.len() > 1, &[format!("order:{}", c.order), bucket("users", c.users.len())])
            },
        ),
        law(
            "coded_users_do_not_interfere",
            "at least two users shared the channel",
            cases(300, 6000),
            || cell(4, 200, 40_000),
            |c: &Cell| {
                let (fs, fc) = (c.fs(), c.fc());
                let h = HadamardMatrix::new(c.n());
                let mut sum = Vec::new();
                let limit = (c.bits + 200) * 2 * c.n() * c.spc;
                for (u, (k, a)) in c.users.iter().enumerate() {
                    add(&mut sum, tx_coded_cdma_bpsk_signal(c.data(u, false).into_iter(), fs, c.sr, fc, h.key(*k)), *a, limit);
                }
                for (u, (k, _)) in c.users.iter().enumerate() {
                    let rx = take_up_to(rx_coded_cdma_bpsk_signal(sum.iter().copied(), fs, c.sr, fc, h.key(*k)), c.bits + 20);
                    let mut want = c.data(u, false);
                    want.resize(want.len().div_ceil(8) * 8, false);
                    same_bits(&format!("user {u} (key {k})"), &rx, &want)?;
                }
                held(c.users.len() > 1, &[format!("order:{}", c.order), bucket("users", c.users.len())])
            },
        ),
    ]
}

// ---- C08 ------------------------------------------------------------------------------------

fn dot(a: &[bool], b: &[bool]) -> i64 {
    a.iter().zip(b).map(|(x, y)| if x == y { 1 } else { -1 }).sum()
}

fn c08() -> Vec<Law> {
    vec![
        law(
            "walsh_keys",
            "the matrix has at least three keys and two distinct ones were compared",
            cases(3000, 60_000),
            || (prop_oneof![60 => 1u32..=10, 1 => 11u32..=12], any::<u32>(), prop_oneof![6 => (0usize..5000).boxed(), 2 => dict_in(0, 1 << 21), 2 => any::<u32>().prop_map(|x| x as usize).boxed()]).boxed(),
            |(order, i, j): &(u32, u32, usize)| {
                let n = 1usize << order;
                let h = HadamardMatrix::new(n);
                let i = *i as usize;
                let (a, b) = (h.key(i), h.key(*j));
                ensure!(a.len() == n && b.len() == n, "key length {} / {} in a matrix of order {n}", a.len(), b.len());
                let same = i % (n - 1) == j % (n - 1);
                let d = dot(a, b);
                ensure!(d == if same { n as i64 } else { 0 }, "keys {i} and {j} of order {n} correlate to {d}");
                let ones = a.iter().filter(|&&x| x).count();
                ensure!(2 * ones == n, "key {i} of order {n} has {ones} ones");
                held(n > 2 && !same, &[format!("order:{order}")])
            },
        ),
        law(
            "walsh_matrix",
            "order at least 4",
            cases(60, 400),
            || (prop_oneof![40 => 1u32..=9, 1 => Just(10u32)], any::<u64>()).boxed(),
            |(order, _): &(u32, u64)| {
                let n = 1usize << order;
                let h = HadamardMatrix::new(n);
                // Every pair of keys, and every pair of rows as displayed.
                for i in 0..n - 1 {
                    for j in 0..=i {
                        let d = dot(h.key(i), h.key(j));
                        ensure!(d == if i == j { n as i64 } else { 0 }, "keys {i} and {j} of order {n} correlate to {d}");
                    }
                }
                let text = format!("{h}");
                let rows: Vec<Vec<bool>> = text
                    .lines()
                    .map(|l| l.split_whitespace().map(|t| t == "T").collect())
                    .collect();
                ensure!(rows.len() == n, "{} rows displayed", rows.len());
                for i in 0..n {
                    ensure!(rows[i].len() == n, "{} columns in row {i}", rows[i].len());
                    for j in 0..i {
                        ensure!(dot(&rows[i], &rows[j]) == 0, "rows {i} and {j} are not orthogonal");
                    }
                }
                for i in 0..n - 1 {
                    ensure!(rows.contains(h.key(i)), "key {i} is not a row of the matrix");
                }
                held(*order > 1, &[format!("order:{order}")])
            },
        ),
        law(
            "non_powers_of_two_are_rejected",
            "the order is not a power of two",
            cases(400, 3000),
            || size(3, 3000),
            |n: &usize| {
                if n.is_power_of_two() {
                    return trivial();
                }
                ensure!(guard(|| HadamardMatrix::new(*n)).is_err(), "order {n} was accepted");
                held(true, &[])
            },
        ),
    ]
}

// ---- C09 ------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Coded {
    key: String,
    spc: usize,
    msg: Msg,
    seed: u64,
}

fn coded(maxbits: usize) -> BoxedStrategy<Coded> {
    (key(8), 2usize..6, msg(maxbits), any::<u64>())
        .prop_map(|(key, spc, msg, seed)| Coded { key, spc, msg, seed })
        .boxed()
}

impl Coded {
    fn cfg(&self) -> (Vec<bool>, usize, usize, f64) {
        let key = unbits(&self.key);
        let fs = self.spc * key.len() * 100;
        // Half a cycle per chip.
        let fc = (key.len() * 100) as f64 / 2.0;
        (key, fs, 100, fc)
    }
    /// The hard-decision code bits the coded transmitter sends.
    fn code(&self, bits: &[bool]) -> Vec<bool> {
        let (key, fs, sr, fc) = self.cfg();
        let limit = (2 * bits.len() + 200) * (fs / sr);
        let s = take_up_to(tx_coded_cdma_bpsk_signal(bits.iter().copied(), fs, sr, fc, &key), limit);
        rx_cdma_bpsk_signal(s.into_iter(), fs, sr, fc, &key).collect()
    }
    fn decode(&self, code: &[bool]) -> Vec<bool> {
        let (key, fs, sr, fc) = self.cfg();
        let s: Vec<f64> = tx_cdma_bpsk_signal(code.iter().copied(), fs, sr, fc, &key).collect();
        take_up_to(rx_coded_cdma_bpsk_signal(s.into_iter(), fs, sr, fc, &key), code.len() + 20)
    }
}

fn coded_long() -> BoxedStrategy<Coded> {
    (key(2), 2usize..4, 60_000usize..200_000, 3u8..12, any::<u64>())
        .prop_map(|(key, spc, len, pattern, seed)| Coded { key, spc, msg: Msg::Gen { len, seed, pattern }, seed })
        .boxed()
}

fn padded(bits: &[bool]) -> Vec<bool> {
    let mut v = bits.to_vec();
    v.resize(v.len().div_ceil(8) * 8, false);
    v
}

/// Byte lengths of the code frames for `b` message bytes.
fn frames(b: usize) -> Vec<usize> {
    let mut v = vec![12; b / 7];
    if b % 7 != 0 {
        v.push(b % 7 + 5);
    }
    v
}

fn coded_link(c: &Coded) -> Res {
        let bits = c.msg.bits();
        let want = padded(&bits);
        let code = c.code(&bits);
        let fr = frames(want.len() / 8);
        ensure!(code.len() == 8 * fr.iter().sum::<usize>(), "{} code bits for {} bits", code.len(), bits.len());
        // Systematic: the data bytes of each frame come first.
        let mut at = 0;
        for (f, &len) in fr.iter().enumerate() {
            let data = 8 * (len - 5);
            same_bits(&format!("data part of frame {f}"), &code[at..at + data], &want[56 * f..56 * f + data])?;
            at += 8 * len;
        }
        let (key, fs, sr, fc) = c.cfg();
        let s: Vec<f64> = take_up_to(tx_coded_cdma_bpsk_signal(bits.iter().copied(), fs, sr, fc, &key), (2 * bits.len() + 200) * (fs / sr));
        let rx = take_up_to(rx_coded_cdma_bpsk_signal(s.into_iter(), fs, sr, fc, &key), want.len() + 20);
        same_bits("coded loopback", &rx, &want)?;
        held(!bits.is_empty(), &[bucket("bits", bits.len()), format!("frames:{}", fr.len().min(9))])
    }

fn two_bytes(c: &Coded) -> Res {
        let bits = c.msg.bits();
        let want = padded(&bits);
        let mut code = c.code(&bits);
        let mut r = Prng(c.seed);
        let (mut at, mut hits) = (0, 0);
        for len in frames(want.len() / 8) {
            let n = [0, 1, 2, 2][r.below(4)].min(len);
            let first = r.below(len);
            let second = (first + 1 + r.below(len - 1)) % len;
            for &b in [first, second].iter().take(n) {
                let e = 1 + r.below(255);
                for k in 0..8 {
                    code[at + 8 * b + k] ^= e >> k & 1 == 1;
                }
                hits += 1;
            }
            at += 8 * len;
        }
        same_bits("decoded", &c.decode(&code), &want)?;
        held(hits > 0, &[bucket("bad_bytes", hits), bucket("bits", bits.len())])
    }

fn independent(c: &Coded) -> Res {
        let bits = c.msg.bits();
        let want = padded(&bits);
        let mut code = c.code(&bits);
        let fr = frames(want.len() / 8);
        if fr.is_empty() {
            return trivial();
        }
        let mut r = Prng(c.seed);
        // A history of frames: intact, damaged within what the code corrects, and destroyed, one by one
        // or in bursts.
        let hits = [1, 2, 8, 30][r.below(4)];
        let burst = [1, 3, 12, 40, 300][r.below(5)];
        let mut bad = vec![false; fr.len()];
        for _ in 0..hits {
            let (from, len) = (r.below(fr.len()), 1 + r.below(burst));
            for f in from..(from + len).min(fr.len()) {
                bad[f] = true;
            }
            if fr.len() < 100 {
                break;
            }
        }
        let mild = r.below(3);
        let (mut at, mut destroyed, mut hurt) = (0, 0, 0);
        for (f, &len) in fr.iter().enumerate() {
            if bad[f] {
                destroyed += 1;
                for k in 0..8 * len {
                    code[at + k] = r.next() & 1 == 1;
                }
            } else if r.below(3) < mild {
                hurt += 1;
                for _ in 0..2 {
                    let (b, e) = (r.below(len), 1 + r.below(255));
                    for k in 0..8 {
                        code[at + 8 * b + k] ^= e >> k & 1 == 1;
                    }
                }
            }
            at += 8 * len;
        }
        let rx = c.decode(&code);
        same_bits_where("decoded", &rx, &want, |i| !bad[i / 56])?;
        held(
            destroyed > 0 && destroyed < fr.len(),
            &[format!("frames:{}", fr.len().min(9)), bucket("destroyed", destroyed), bucket("corrected", hurt)],
        )
    }

fn alone(c: &Coded) -> Res {
        // Whatever the bits, a whole frame is decoded as it would be alone.
        let mut code = c.msg.bits();
        let n = code.len() / 96;
        let mut r = Prng(c.seed);
        // Some of the frames are code words.
        let words = c.code(&c.msg.bits());
        for f in 0..n.min(words.len() / 96) {
            if r.below(3) == 0 {
                code[96 * f..96 * (f + 1)].copy_from_slice(&words[96 * f..96 * (f + 1)]);
                code[96 * f + r.below(96)] ^= true;
            }
        }
        let rx = c.decode(&code);
        for f in 0..n {
            same_bits(&format!("frame {f} alone"), &c.decode(&code[96 * f..96 * (f + 1)]), &rx[56 * f..56 * (f + 1)])?;
        }
        held(n > 1, &[bucket("frames", n)])
    }

fn any_bits(c: &Coded) -> Res {
        // Garbage never stops the receiver, and the output length depends on the input length only.
        let code = c.msg.bits();
        let bytes = code.len().div_ceil(8);
        let want = 8 * (bytes / 12 * 7 + (bytes % 12).saturating_sub(5));
        let rx = c.decode(&code);
        ensure!(rx.len() == want, "{} bits decoded from {} code bits, expected {want}", rx.len(), code.len());
        held(bytes >= 12, &[bucket("bits", code.len()), format!("tail_bytes:{}", bytes % 12)])
    }

fn c09() -> Vec<Law> {
    vec![
        law("coded_link_long", "always", cases(2, 30), coded_long, coded_link),
        law("corrects_two_bytes_per_frame_long", "always", cases(2, 30), coded_long, two_bytes),
        law("frames_are_independent_long", "always", cases(1, 20), coded_long, independent),
        law("any_bits_decode_long", "always", cases(1, 20), coded_long, any_bits),
        law(
            "coded_link",
            "at least one bit was sent",
            cases(1500, 30_000),
            || coded(1500),
            coded_link,
        ),
        law(
            "corrects_two_bytes_per_frame",
            "at least one code byte was corrupted",
            cases(2500, 60_000),
            || coded(1200),
            two_bytes,
        ),
        law(
            "frames_are_independent",
            "at least one frame destroyed and one not",
            cases(1200, 20_000),
            || coded(4000),
            independent,
        ),
        law(
            "frames_decode_alone",
            "at least two whole frames",
            cases(600, 10_000),
            || coded(4000),
            alone,
        ),
        law(
            "any_bits_decode",
            "at least one whole code frame of arbitrary bits",
            cases(2500, 60_000),
            || coded(1500),
            any_bits,
        ),
    ]
}
