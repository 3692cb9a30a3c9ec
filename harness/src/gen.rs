//! Generators shared by the laws.

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::OnceLock;

/// Numeric literals of the code under test (and their neighbours): a fuzzing dictionary, so that
/// sizes, rates and values the code singles out are reached whatever they are.
pub struct Dict {
    pub ints: Vec<usize>,
    pub floats: Vec<f64>,
}

impl Dict {
    pub fn len(&self) -> usize {
        self.ints.len() + self.floats.len()
    }
}

fn scan(dir: &std::path::Path, ints: &mut BTreeSet<usize>, floats: &mut BTreeSet<u64>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            scan(&p, ints, floats);
            continue;
        }
        let ext = p.extension().and_then(|x| x.to_str()).unwrap_or("");
        if ext != "rs" && ext != "py" {
            continue;
        }
        let Ok(text) = std::fs::read_to_string(&p) else { continue };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if b[i].is_ascii_digit() && !prev_ident {
                let start = i;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric()
                        || b[i] == b'_'
                        || (b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())
                        || ((b[i] == b'-' || b[i] == b'+') && matches!(b[i - 1], b'e' | b'E')
                            && !text[start..i].starts_with("0x")))
                {
                    i += 1;
                }
                let mut t = text[start..i].replace('_', "");
                for suf in ["f64", "f32", "usize", "isize", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "u128"] {
                    if let Some(s) = t.strip_suffix(suf) {
                        if !s.is_empty() && !s.starts_with("0x") {
                            t = s.to_string();
                            break;
                        }
                    }
                }
                let int = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(h) = t.strip_prefix("0b") {
                    u64::from_str_radix(h, 2).ok()
                } else {
                    t.parse::<u64>().ok()
                };
                if let Some(v) = int {
                    ints.insert(v.min(1 << 40) as usize);
                } else if let Ok(f) = t.parse::<f64>() {
                    if f.is_finite() {
                        floats.insert(f.to_bits());
                        if f.fract() == 0.0 && f > 0.0 && f < 1e12 {
                            ints.insert(f as usize);
                        }
                    }
                }
            } else {
                i += 1;
            }
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut ints = BTreeSet::new();
        let mut floats = BTreeSet::new();
        let repo = repo_root();
        scan(&repo.join("src"), &mut ints, &mut floats);
        scan(&repo.join("kom_py"), &mut ints, &mut floats);
        let mut near = BTreeSet::new();
        for &v in &ints {
            for d in [v.saturating_sub(1), v, v + 1] {
                near.insert(d);
            }
        }
        for k in 1..=21u32 {
            let p = 1usize << k;
            near.extend([p - 1, p, p + 1]);
        }
        Dict {
            ints: near.into_iter().collect(),
            floats: floats.into_iter().map(f64::from_bits).collect(),
        }
    })
}

pub fn repo_root() -> std::path::PathBuf {
    std::env::var_os("KVERIF_REPO")
        .map(Into::into)
        .unwrap_or_else(|| "/repo".into())
}

/// A dictionary integer in `lo..=hi` (falls back to `lo`).
pub fn dict_in(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    let v: Vec<usize> = dict()
        .ints
        .iter()
        .copied()
        .filter(|&x| x >= lo && x <= hi)
        .collect();
    if v.is_empty() {
        Just(lo).boxed()
    } else {
        prop::sample::select(v).boxed()
    }
}

/// A size in `lo..=hi`: small, medium, dictionary, or anything.
pub fn size(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    let small = hi.min(lo + 12);
    let mid = hi.min(lo + 300);
    prop_oneof![
        4 => lo..=small,
        3 => lo..=mid,
        3 => dict_in(lo, hi),
        1 => lo..=hi,
    ]
    .boxed()
}

/// A message: explicit bits when short, a recipe when long.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Bits(String),
    Gen { len: usize, seed: u64, pattern: u8 },
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Deterministic stream of u64.
pub struct Prng(pub u64);
impl Prng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn gauss(&mut self) -> f64 {
        let u1 = (self.unit() + 1e-18).min(1.0);
        let u2 = self.unit();
        (-2.0 * u1.ln()).sqrt() * (2.0 * std::f64::consts::PI * u2).cos()
    }
}

impl Msg {
    pub fn bits(&self) -> Vec<bool> {
        match self {
            Msg::Bits(s) => s.bytes().map(|b| b == b'1').collect(),
            Msg::Gen { len, seed, pattern } => {
                let mut r = Prng(*seed);
                match pattern {
                    0 => vec![false; *len],
                    1 => vec![true; *len],
                    2 => (0..*len).map(|i| i % 2 == 0).collect(),
                    // Long runs.
                    3 => {
                        let mut v = Vec::with_capacity(*len);
                        let mut b = r.next() & 1 == 1;
                        while v.len() < *len {
                            let run = 1 + r.below(23);
                            for _ in 0..run.min(*len - v.len()) {
                                v.push(b);
                            }
                            b = !b;
                        }
                        v
                    }
                    4 => (0..*len).map(|_| r.below(10) == 0).collect(),
                    5 => (0..*len).map(|_| r.below(10) != 0).collect(),
                    _ => (0..*len).map(|_| r.next() & 1 == 1).collect(),
                }
            }
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Msg::Bits(s) => s.len(),
            Msg::Gen { len, .. } => *len,
        }
    }
}

pub fn bits_str(max: usize) -> BoxedStrategy<String> {
    prop::collection::vec(any::<bool>(), 0..=max)
        .prop_map(|v| v.iter().map(|&b| if b { '1' } else { '0' }).collect())
        .boxed()
}

pub fn msg(max: usize) -> BoxedStrategy<Msg> {
    msg_in(0, max)
}

pub fn msg_in(min: usize, max: usize) -> BoxedStrategy<Msg> {
    let short = max.min(min + 24);
    prop_oneof![
        2 => prop::collection::vec(any::<bool>(), min..=short)
            .prop_map(|v| Msg::Bits(v.iter().map(|&b| if b { '1' } else { '0' }).collect())),
        3 => (size(min, max), any::<u64>(), 0u8..12)
            .prop_map(|(len, seed, pattern)| Msg::Gen { len, seed, pattern }),
    ]
    .boxed()
}

/// A message that once in a while is very long.
pub fn long_msg(usual: usize, rare: usize) -> BoxedStrategy<Msg> {
    prop_oneof![
        400 => msg(usual),
        1 => (usual..=rare, any::<u64>(), 3u8..12).prop_map(|(len, seed, pattern)| Msg::Gen { len, seed, pattern }),
    ]
    .boxed()
}

/// A CDMA key / chip pattern, 1..=max chips.
pub fn key(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        3 => prop::collection::vec(any::<bool>(), 1..=max.min(16)),
        1 => (prop::sample::select(vec![1usize, 2, 4, 8, 16, 32, 64, 128]), any::<u64>()).prop_map(move |(n, s)| {
            let mut r = Prng(s);
            (0..n.min(max)).map(|_| r.next() & 1 == 1).collect::<Vec<bool>>()
        }),
        1 => (1..=max.min(300), any::<bool>()).prop_map(|(n, b)| vec![b; n]),
        1 => (size(1, max), any::<u64>(), 1usize..6).prop_map(|(n, s, one_in)| {
            let mut r = Prng(s);
            (0..n).map(|_| r.below(one_in) == 0).collect::<Vec<bool>>()
        }),
    ]
    .prop_map(|v| v.iter().map(|&b| if b { '1' } else { '0' }).collect())
    .boxed()
}

pub fn unbits(s: &str) -> Vec<bool> {
    s.bytes().map(|b| b == b'1').collect()
}

/// Link rates: the sample rate is `sps * sr`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rate {
    pub sps: usize,
    pub sr: usize,
}

impl Rate {
    pub fn fs(&self) -> usize {
        self.sps * self.sr
    }
}

pub fn symbol_rate() -> BoxedStrategy<usize> {
    prop_oneof![
        2 => Just(1usize),
        2 => 1usize..=20,
        2 => dict_in(1, 100_000),
        2 => prop::sample::select(vec![100usize, 256, 441, 900, 1000, 4000, 9600, 44100, 1_000_000]),
        1 => 1usize..=50_000,
        1 => prop::sample::select(vec![65_536usize, 10_000_000, 16_777_217, 123_456_789, 2_147_483_648, 5_000_000_000]),
    ]
    .boxed()
}

pub fn rate(lo: usize, hi: usize) -> BoxedStrategy<Rate> {
    (size(lo, hi), symbol_rate())
        .prop_map(|(sps, sr)| Rate { sps, sr })
        .boxed()
}

/// A carrier in [0, floor(fs / 2)], relative to a rate.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Link {
    pub sps: usize,
    pub sr: usize,
    pub fc: f64,
}

impl Link {
    pub fn fs(&self) -> usize {
        self.sps * self.sr
    }
}

#[derive(Clone, Debug)]
enum Fc {
    Half(f64),
    Frac(f64),
    Int(f64),
    Dict(usize),
    Edge(u8),
}

fn pick_fc(f: &Fc, fs: usize, sr: usize) -> f64 {
    let top = (fs / 2) as f64;
    let v = match f {
        Fc::Half(u) => ((u * 2.0 * top / sr as f64).floor()) * sr as f64 / 2.0,
        Fc::Frac(u) => u * top,
        Fc::Int(u) => (u * top).floor(),
        Fc::Dict(d) => *d as f64,
        Fc::Edge(0) => 0.0,
        Fc::Edge(1) => top,
        Fc::Edge(2) => fs as f64 / 4.0,
        Fc::Edge(3) => sr as f64,
        Fc::Edge(4) => sr as f64 * 2.5,
        Fc::Edge(5) => top * 0.999,
        Fc::Edge(_) => 1e-3 * sr as f64,
    };
    if v > top {
        top
    } else {
        v
    }
}

fn fc() -> BoxedStrategy<Fc> {
    prop_oneof![
        4 => (0.0f64..1.0).prop_map(Fc::Half),
        4 => (0.0f64..1.0).prop_map(Fc::Frac),
        2 => (0.0f64..1.0).prop_map(Fc::Int),
        2 => dict_in(0, 1_000_000).prop_map(Fc::Dict),
        2 => (0u8..7).prop_map(Fc::Edge),
    ]
    .boxed()
}

pub fn link(lo: usize, hi: usize) -> BoxedStrategy<Link> {
    (rate(lo, hi), fc())
        .prop_map(|(r, f)| Link {
            sps: r.sps,
            sr: r.sr,
            fc: pick_fc(&f, r.fs(), r.sr),
        })
        .boxed()
}

/// A link with a whole number of half carrier cycles per symbol, strictly between 0 and Nyquist.
pub fn ortho_link(lo: usize, hi: usize) -> BoxedStrategy<Link> {
    (rate(lo.max(2), hi), 0.0f64..1.0, any::<bool>())
        .prop_map(|(r, u, low)| {
            let u = if low { u * u * u } else { u };
            let m = 1 + (u * (r.sps - 1) as f64).floor() as usize;
            let m = m.min(r.sps - 1);
            Link {
                sps: r.sps,
                sr: r.sr,
                fc: m as f64 * r.sr as f64 / 2.0,
            }
        })
        .boxed()
}

/// A positive channel gain.
pub fn gain() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(1.0f64),
        3 => 0.05f64..20.0,
        1 => prop::sample::select(vec![1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9]),
        1 => prop::sample::select(vec![1e-100, 1e-60, 1e-30, 1e-20, 1e-15, 1e-12, 1e12, 1e15, 1e20, 1e30, 1e60, 1e100]),
        1 => (-15.0f64..15.0).prop_map(|e| 10f64.powf(e)),
    ]
    .boxed()
}

/// An arbitrary received waveform.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wave {
    Vals(Vec<f64>),
    Gauss { len: usize, seed: u64, sigma: f64 },
    Sparse { len: usize, seed: u64, every: usize },
    Steps { len: usize, seed: u64, hold: usize },
    Ints { len: usize, seed: u64, max: i64 },
    /// Noise whose level changes by orders of magnitude every `hold` samples; if `broken`, now and then a
    /// sample is infinite or not a number.
    Fading { len: usize, seed: u64, hold: usize, decades: f64, broken: bool },
}

impl Wave {
    pub fn len(&self) -> usize {
        match self {
            Wave::Vals(v) => v.len(),
            Wave::Gauss { len, .. }
            | Wave::Sparse { len, .. }
            | Wave::Steps { len, .. }
            | Wave::Ints { len, .. }
            | Wave::Fading { len, .. } => *len,
        }
    }
    pub fn samples(&self) -> Vec<f64> {
        match self {
            Wave::Vals(v) => v.clone(),
            Wave::Gauss { len, seed, sigma } => {
                let mut r = Prng(*seed);
                (0..*len).map(|_| sigma * r.gauss()).collect()
            }
            Wave::Sparse { len, seed, every } => {
                let mut r = Prng(*seed);
                (0..*len)
                    .map(|_| {
                        if r.below(*every) == 0 {
                            r.range(-5.0, 5.0)
                        } else {
                            0.0
                        }
                    })
                    .collect()
            }
            Wave::Steps { len, seed, hold } => {
                let mut r = Prng(*seed);
                let mut v = Vec::with_capacity(*len);
                while v.len() < *len {
                    let x = r.range(-2.0, 2.0);
                    for _ in 0..(*hold).max(1).min(*len - v.len()) {
                        v.push(x);
                    }
                }
                v
            }
            Wave::Fading { len, seed, hold, decades, broken } => {
                let mut r = Prng(*seed);
                let mut g = 1.0;
                (0..*len)
                    .map(|i| {
                        if i % (*hold).max(1) == 0 {
                            g = 10f64.powf(r.range(-decades, *decades));
                        }
                        if *broken && r.below(60) == 0 {
                            return [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300][r.below(5)];
                        }
                        g * r.gauss()
                    })
                    .collect()
            }
            Wave::Ints { len, seed, max } => {
                let mut r = Prng(*seed);
                (0..*len)
                    .map(|_| (r.below((2 * max + 1) as usize) as i64 - max) as f64)
                    .collect()
            }
        }
    }
}

/// A standard deviation: usual, or anything from faint to huge.
fn scale() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => prop::sample::select(vec![1e-6, 0.3, 1.0, 100.0]),
        1 => prop::sample::select(vec![1e-100, 1e-40, 1e-25, 1e-15, 1e-12, 1e-9, 1e6, 1e9, 1e15, 1e40, 1e100]),
    ]
    .boxed()
}

/// A waveform long enough for what only shows after a long run.
/// Lengths of long runs: about `budget`, at times past 2^22, and now and then past 2^24.
pub fn soak_len(budget: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        44 => budget / 2..=budget,
        3 => 4_300_000usize..5_000_000,
        1 => 16_900_000usize..18_000_000,
    ]
    .boxed()
}

pub fn long_wave(budget: usize) -> BoxedStrategy<Wave> {
    prop_oneof![
        3 => (soak_len(budget), any::<u64>(), scale()).prop_map(|(len, seed, sigma)| Wave::Gauss { len, seed, sigma }),
        1 => (soak_len(budget), any::<u64>(), 1usize..2000).prop_map(|(len, seed, hold)| Wave::Steps { len, seed, hold }),
    ]
    .boxed()
}

pub fn wave(min: usize, max: usize) -> BoxedStrategy<Wave> {
    prop_oneof![
        2 => prop::collection::vec(-10.0f64..10.0, min..=max.min(min + 24)).prop_map(Wave::Vals),
        3 => (size(min, max), any::<u64>(), scale())
            .prop_map(|(len, seed, sigma)| Wave::Gauss { len, seed, sigma }),
        1 => (size(min, max), any::<u64>(), 1usize..30)
            .prop_map(|(len, seed, every)| Wave::Sparse { len, seed, every }),
        1 => (size(min, max), any::<u64>(), 1usize..40)
            .prop_map(|(len, seed, hold)| Wave::Steps { len, seed, hold }),
        1 => (size(min, max), any::<u64>(), 1i64..50)
            .prop_map(|(len, seed, max)| Wave::Ints { len, seed, max }),
    ]
    .boxed()
}

/// What a receiver may get: any waveform, fading and broken samples included.
pub fn recv_wave(min: usize, max: usize) -> BoxedStrategy<Wave> {
    prop_oneof![
        6 => wave(min, max),
        2 => (size(min, max), any::<u64>(), size(1, 2000), 1.0f64..25.0, prop::bool::weighted(0.3))
            .prop_map(|(len, seed, hold, decades, broken)| Wave::Fading { len, seed, hold, decades, broken }),
    ]
    .boxed()
}

/// Log-uniform bucket label for class histograms.
pub fn bucket(name: &str, n: usize) -> String {
    let b = match n {
        0 => "0",
        1 => "1",
        2..=3 => "2-3",
        4..=15 => "4-15",
        16..=63 => "16-63",
        64..=255 => "64-255",
        256..=1023 => "256-1023",
        1024..=8191 => "1k-8k",
        8192..=65535 => "8k-64k",
        65536..=1048575 => "64k-1M",
        _ => ">=1M",
    };
    format!("{name}:{b}")
}

/// Limits the message so that a case stays below `budget` samples.
pub fn fit(m: Msg, sps: usize, budget: usize) -> Msg {
    let max = (budget / sps.max(1)).max(3);
    match m {
        Msg::Gen { len, seed, pattern } => Msg::Gen { len: len.min(max), seed, pattern },
        Msg::Bits(mut s) => {
            s.truncate(max);
            Msg::Bits(s)
        }
    }
}

/// A hop band inside [0, fs / 2].
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HopSpec {
    pub sps: usize,
    pub sr: usize,
    /// Band edges as fractions of Nyquist.
    pub lo: f64,
    pub hi: f64,
    pub num: usize,
}

impl HopSpec {
    pub fn strategy(lo: usize, hi: usize) -> BoxedStrategy<HopSpec> {
        (rate(lo, hi), 0.0f64..1.0, 0.0f64..1.0, prop_oneof![15 => size(1, 80), 1 => size(1, 3000)], 0u8..6)
            .prop_map(|(r, a, b, num, edge)| {
                let (mut lo, mut hi) = if a < b { (a, b) } else { (b, a) };
                match edge {
                    0 => lo = 0.0,
                    1 => hi = 1.0,
                    _ => {}
                }
                HopSpec { sps: r.sps, sr: r.sr, lo, hi, num }
            })
            .boxed()
    }
    pub fn fs(&self) -> usize {
        self.sps * self.sr
    }
    pub fn low(&self) -> f64 {
        self.lo * (self.fs() / 2) as f64
    }
    pub fn high(&self) -> f64 {
        self.hi * (self.fs() / 2) as f64
    }
    pub fn freqs(&self) -> Vec<f64> {
        let step = (self.high() - self.low()) / self.num as f64;
        (0..self.num).map(|i| self.low() + step * i as f64).collect()
    }
}

