//! C18: stream adaptors. C19: convolution.

use super::Property;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::*;
use komunikilo::iter::Iter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C18", laws: c18, assumptions: &["block sizes and rates of at least one; sources that stay exhausted", "the padded block wchunks appends after a whole number of blocks is tolerated, not required"] },
        Property { id: "C19", laws: c19, assumptions: &["filters of at least one tap"] },
    ]
}

fn data(n: usize, seed: u64) -> Vec<i64> {
    let mut r = Prng(seed);
    // Everywhere non-zero, mostly zero, or in runs of zeros and values.
    let kind = mix(seed ^ 0x77) % 8;
    let mut on = true;
    (0..n)
        .map(|_| {
            let x = r.below(20_001) as i64 - 10_000;
            if kind == 1 && r.below(10) == 0 {
                on = !on;
            }
            if (kind == 0 && r.below(10) > 0) || (kind == 1 && !on) { 0 } else { x }
        })
        .collect()
}

fn rows<const N: usize>(n: usize, seed: u64) -> Vec<[i64; N]> {
    let d = data(n * N, seed);
    (0..n).map(|i| std::array::from_fn(|j| d[i * N + j])).collect()
}

/// The adaptor's output, and that it stays exhausted.
fn drain<T>(mut it: impl Iterator<Item = T>, limit: usize) -> Result<Vec<T>, String> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
        ensure!(v.len() <= limit, "more than {limit} items");
    }
    for _ in 0..2 {
        ensure!(it.next().is_none(), "an item after the end of the stream");
    }
    Ok(v)
}

/// However a stream is read, its items are those that `next` gives one by one.
fn consumers<T: PartialEq + Clone + std::fmt::Debug, I: Iterator<Item = T>>(what: &str, open: impl Fn() -> I, seed: u64) -> Result<(), String> {
    let mut all = Vec::new();
    let mut it = open();
    while let Some(x) = it.next() {
        all.push(x);
        ensure!(all.len() < 1 << 20, "{what}: no end");
    }
    let n = all.len();
    let mut r = Prng(seed ^ 0xc0c0);
    let most = [2, 3, 20, n + 2][r.below(4)];
    let (mut it, mut at) = (open(), 0);
    loop {
        let k = r.below(most);
        at += k;
        let got = it.nth(k);
        ensure!(got.as_ref() == all.get(at), "{what}: item {at}, reached by nth({k}), is {got:?} and not {:?}", all.get(at));
        if got.is_none() {
            break;
        }
        at += 1;
    }
    let k = r.below(n + 2);
    let got: Vec<T> = open().skip(k).take(n + 1).collect();
    eq(&format!("{what}, {k} items skipped"), &got, &all[k.min(n)..])?;
    let step = 1 + r.below(most);
    let got: Vec<T> = open().step_by(step).take(n + 1).collect();
    eq(&format!("{what}, every {step}th item"), &got, &all.iter().step_by(step).cloned().collect::<Vec<T>>())?;
    ensure!(open().count() == n, "{what}: {} items counted instead of {n}", open().count());
    ensure!(open().last().as_ref() == all.last(), "{what}: last() is not the last item");
    // Some items one by one, the others at once.
    let k = r.below(n + 1);
    let mut it = open();
    let mut got: Vec<T> = it.by_ref().take(k).collect();
    let (lo, hi) = it.size_hint();
    ensure!(lo <= n - k && hi.is_none_or(|h| h >= n - k), "{what}: size_hint ({lo}, {hi:?}) with {} items left", n - k);
    got = it.fold(got, |mut v, x| {
        v.push(x);
        v
    });
    eq(&format!("{what}, folded after {k} items"), &got, &all)?;
    let mut got = Vec::new();
    open().for_each(|x| got.push(x));
    eq(&format!("{what}, by for_each"), &got, &all)?;
    if n > 0 {
        let k = r.below(n);
        let mut i = 0;
        let found = open().position(|_| {
            i += 1;
            i > k
        });
        ensure!(found == Some(k), "{what}: position {found:?} instead of {k}");
    }
    Ok(())
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{what}: {} items instead of {}", got.len(), want.len());
    for i in 0..got.len() {
        ensure!(got[i] == want[i], "{what}: item {i} is {:?} instead of {:?}", got[i], want[i]);
    }
    Ok(())
}

fn counted() -> BoxedStrategy<(usize, usize, u64)> {
    (size(0, 3000), prop_oneof![6 => size(1, 400), 1 => size(1, 4000)], any::<u64>())
        .prop_map(|(n, k, s)| {
            // Every third case has a whole number of blocks.
            let n = if s % 3 == 0 { n / k * k } else { n };
            (n, k, s)
        })
        .boxed()
}

fn prefix_sums(d: &[i64]) -> Vec<i64> {
    d.iter()
        .scan(0, |a, x| {
            *a += x;
            Some(*a)
        })
        .collect()
}

fn nsums<const N: usize>(n: usize, k: usize, seed: u64) -> Result<(), String> {
    let d = rows::<N>(n, seed);
    let mut acc = [0i64; N];
    let want: Vec<[i64; N]> = d
        .iter()
        .map(|r| {
            for j in 0..N {
                acc[j] += r[j];
            }
            acc
        })
        .collect();
    eq("nintegrate", &drain(d.iter().copied().nintegrate(), n)?, &want)?;
    let want: Vec<[i64; N]> = d
        .chunks_exact(k)
        .map(|b| std::array::from_fn(|j| b.iter().map(|r| r[j]).sum()))
        .collect();
    let got = take_up_to(d.iter().copied().nintegrate_and_dump(k), n + 1);
    eq("nintegrate_and_dump", &got, &want)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Inflate(usize),
    TakeEvery(usize),
    Integrate,
    Dump(usize),
    Chunked(usize),
    Convolve(Vec<i64>),
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        (1usize..6).prop_map(Op::Inflate),
        (1usize..6).prop_map(Op::TakeEvery),
        Just(Op::Integrate),
        (1usize..9).prop_map(Op::Dump),
        (1usize..9).prop_map(Op::Chunked),
        prop::collection::vec(-3i64..=3, 1..5).prop_map(Op::Convolve),
    ]
    .boxed()
}

/// Modular arithmetic, so that long pipelines cannot overflow.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct M(u64);
impl std::ops::Add for M {
    type Output = M;
    fn add(self, o: M) -> M {
        M(self.0.wrapping_add(o.0))
    }
}
impl std::ops::AddAssign for M {
    fn add_assign(&mut self, o: M) {
        self.0 = self.0.wrapping_add(o.0)
    }
}
impl std::ops::Mul for M {
    type Output = M;
    fn mul(self, o: M) -> M {
        M(self.0.wrapping_mul(o.0))
    }
}
impl std::iter::Sum for M {
    fn sum<I: Iterator<Item = M>>(it: I) -> M {
        it.fold(M(0), |a, b| a + b)
    }
}

fn apply(it: Box<dyn Iterator<Item = M>>, op: &Op) -> Box<dyn Iterator<Item = M>> {
    match op.clone() {
        Op::Inflate(k) => Box::new(it.inflate(k)),
        Op::TakeEvery(k) => Box::new(it.take_every(k)),
        Op::Integrate => Box::new(it.integrate()),
        Op::Dump(k) => Box::new(it.fuse().integrate_and_dump(k)),
        Op::Chunked(k) => Box::new(it.chunks(k).take(1 << 20).flatten()),
        Op::Convolve(h) => Box::new(it.convolve(h.iter().map(|&x| M(x as u64)).collect())),
    }
}

fn model(v: Vec<M>, op: &Op) -> Vec<M> {
    match op {
        Op::Inflate(k) => v.iter().flat_map(|&x| vec![x; *k]).collect(),
        Op::TakeEvery(k) => v.iter().step_by(*k).copied().collect(),
        Op::Integrate => v
            .iter()
            .scan(M(0), |a, &x| {
                *a += x;
                Some(*a)
            })
            .collect(),
        Op::Dump(k) => v.chunks_exact(*k).map(|b| b.iter().copied().sum()).collect(),
        Op::Chunked(_) => v,
        Op::Convolve(h) => {
            if v.is_empty() {
                return v;
            }
            let mut y = vec![M(0); v.len() + h.len() - 1];
            for (i, &x) in v.iter().enumerate() {
                for (j, &t) in h.iter().enumerate() {
                    y[i + j] += x * M(t as u64);
                }
            }
            y
        }
    }
}

fn c18() -> Vec<Law> {
    vec![
        law(
            "chunks",
            "at least two chunks",
            cases(5000, 80_000),
            counted,
            |(n, k, s): &(usize, usize, u64)| {
                let d = data(*n, *s);
                let got = drain(d.iter().copied().chunks(*k), n + 1)?;
                let want: Vec<Vec<i64>> = d.chunks(*k).map(|c| c.to_vec()).collect();
                eq("chunks", &got, &want)?;
                // wchunks: the same, the last one padded with zeros to full size.
                let got = drain(d.iter().copied().wchunks(*k), n / k + 2)?;
                let blocks = n.div_ceil(*k);
                ensure!(got.len() == blocks || (n % k == 0 && got.len() == blocks + 1), "wchunks: {} chunks of {k} for {n} items", got.len());
                let mut flat = d.clone();
                flat.resize(got.len() * k, 0);
                ensure!(got.iter().all(|c| c.len() == *k), "wchunks: a chunk of another size");
                eq("wchunks", &got.concat(), &flat)?;
                held(n > k, &[bucket("n", *n), bucket("k", *k), format!("whole:{}", n % k == 0)])
            },
        ),
        law(
            "inflate_and_take_every",
            "at least two items and a factor above one",
            cases(5000, 80_000),
            || (size(0, 1500), size(0, 300), any::<u64>()).boxed(),
            |(n, k, s): &(usize, usize, u64)| {
                let n = (*n).min(60_000 / (k + 1));
                let d = data(n, *s);
                let got = drain(d.iter().copied().inflate(*k), n * k)?;
                let want: Vec<i64> = d.iter().flat_map(|&x| vec![x; *k]).collect();
                eq("inflate", &got, &want)?;
                if *k > 0 {
                    let got = drain(d.iter().copied().take_every(*k), n)?;
                    let want: Vec<i64> = d.iter().step_by(*k).copied().collect();
                    eq("take_every", &got, &want)?;
                    // Decimation undoes inflation.
                    let back = drain(d.iter().copied().inflate(*k).take_every(*k), n)?;
                    eq("inflate then take_every", &back, &d)?;
                    // A clone of a stream in progress continues alike (keys are inflated and cycled).
                    let at = (*s % 97) as usize;
                    let mut it = d.iter().copied().inflate(*k);
                    for _ in 0..at {
                        it.next();
                    }
                    eq("cloned inflate", &drain(it.clone(), n * k)?, &drain(it, n * k)?)?;
                }
                held(n > 1 && *k > 1, &[bucket("n", n), bucket("k", *k)])
            },
        ),
        law(
            "integrators",
            "at least two whole windows",
            cases(5000, 80_000),
            counted,
            |(n, k, s): &(usize, usize, u64)| {
                let d = data(*n, *s);
                eq("integrate", &drain(d.iter().copied().integrate(), *n)?, &prefix_sums(&d))?;
                let want: Vec<i64> = d.chunks_exact(*k).map(|b| b.iter().sum()).collect();
                eq("integrate_and_dump", &take_up_to(d.iter().copied().integrate_and_dump(*k), n + 1), &want)?;
                match s % 7 {
                    0 => nsums::<1>(*n, *k, *s)?,
                    1 => nsums::<2>(*n, *k, *s)?,
                    2 => nsums::<3>(*n, *k, *s)?,
                    3 => nsums::<4>(*n, *k, *s)?,
                    4 => nsums::<8>(*n, *k, *s)?,
                    5 => nsums::<17>(*n / 4, *k, *s)?,
                    _ => nsums::<5>(*n, *k, *s)?,
                }
                held(*n >= 2 * k, &[bucket("n", *n), bucket("k", *k), format!("whole:{}", n % k == 0)])
            },
        ),
        law(
            "integrators_dynamic",
            "at least two whole windows",
            cases(2000, 30_000),
            || (recv_wave(0, 3000), size(1, 300)).boxed(),
            |(w, k): &(Wave, usize)| {
                // Each window's sum depends on that window alone, however strong the others are.
                let s = w.samples();
                let n = s.len() / k;
                let sums = take_up_to(s.iter().copied().integrate_and_dump(*k), n + 1);
                let pairs = take_up_to(s.iter().map(|&x| [x, -2.0 * x]).nintegrate_and_dump(*k), n + 1);
                ensure!(sums.len() == n && pairs.len() == n, "{} and {} sums for {n} windows", sums.len(), pairs.len());
                for (i, b) in s.chunks_exact(*k).enumerate() {
                    let (want, size) = (b.iter().sum::<f64>(), b.iter().map(|x| x.abs()).sum::<f64>());
                    if size < 1e306 {
                        let tol = 1e-12 * size + 1e-300;
                        ensure!((sums[i] - want).abs() <= tol, "window {i} of {k} sums to {} instead of {want}", sums[i]);
                        ensure!(
                            (pairs[i][0] - want).abs() <= tol && (pairs[i][1] + 2.0 * want).abs() <= 2.0 * tol,
                            "window {i} of {k} sums to {:?} instead of {want} and {}",
                            pairs[i],
                            -2.0 * want
                        );
                    }
                }
                held(n >= 2, &[bucket("n", s.len()), bucket("k", *k)])
            },
        ),
        law(
            "scale",
            "at least one item",
            cases(3000, 40_000),
            || {
                let decades = (-100.0f64..100.0, any::<bool>()).prop_map(|(e, up)| 10f64.powf(e) * if up { 1.0 } else { -1.0 });
                let ordinary = prop_oneof![-1e3f64..1e3, Just(0.0), Just(1.0), Just(-1.0)];
                (wave(0, 2000), prop_oneof![ordinary.boxed(), decades.boxed()]).boxed()
            },
            |(w, g): &(Wave, f64)| {
                let s = w.samples();
                let got = drain(s.iter().copied().scale(*g), s.len())?;
                same_wave("scale", &got, s.len(), |i| s[i] * g, |i| 1e-14 * (s[i] * g).abs() + 1e-300)?;
                held(!s.is_empty(), &[bucket("n", s.len())])
            },
        ),
        law(
            "every_way_of_reading",
            "at least two items",
            cases(4000, 60_000),
            || (size(0, 200), size(1, 40), any::<u64>()).boxed(),
            |(n, k, s): &(usize, usize, u64)| {
                let (n, k) = (*n, *k);
                let d = data(n, *s);
                let d3 = rows::<3>(n, *s);
                let (w, g) = (d.iter().map(|&x| x as f64).collect::<Vec<f64>>(), k as f64 - 7.5);
                match mix(*s) % 9 {
                    0 => consumers("chunks", || d.iter().copied().chunks(k), *s)?,
                    1 => consumers("wchunks", || d.iter().copied().wchunks(k), *s)?,
                    2 => consumers("inflate", || d.iter().copied().inflate(k - 1), *s)?,
                    3 => consumers("take_every", || d.iter().copied().take_every(k), *s)?,
                    4 => consumers("integrate", || d.iter().copied().integrate(), *s)?,
                    5 => consumers("integrate_and_dump", || d.iter().copied().integrate_and_dump(k), *s)?,
                    6 => consumers("nintegrate", || d3.iter().copied().nintegrate(), *s)?,
                    7 => consumers("nintegrate_and_dump", || d3.iter().copied().nintegrate_and_dump(k), *s)?,
                    _ => consumers("scale", || w.iter().copied().scale(g), *s)?,
                }
                held(n > 1, &[format!("adaptor:{}", mix(*s) % 9), bucket("n", n), bucket("k", k)])
            },
        ),
        law(
            "pipelines",
            "at least two stages over at least two items",
            cases(6000, 120_000),
            || (size(0, 200), any::<u64>(), prop::collection::vec(op(), 0..7)).boxed(),
            |(n, s, ops): &(usize, u64, Vec<Op>)| {
                // Any composition of adaptors equals the composition of their models.
                let d: Vec<M> = data(*n, *s).into_iter().map(|x| M(x as u64)).collect();
                let source = d.clone();
                let open = || {
                    let source: Box<dyn Iterator<Item = M>> = Box::new(source.clone().into_iter());
                    ops.iter().fold(source, apply)
                };
                let mut want = d;
                for o in ops {
                    if want.len() > 20_000 {
                        return trivial();
                    }
                    want = model(want, o);
                }
                let got = take_up_to(open(), want.len() + 2);
                eq(&format!("{ops:?}"), &got, &want)?;
                // Skipping items gives the others as they are.
                let mut it = open();
                let mut r = Prng(*s);
                let most = [3, 20, want.len() + 2][r.below(3)];
                let mut at = 0;
                for _ in 0..want.len() + 2 {
                    let k = r.below(most);
                    at += k;
                    let got = it.nth(k);
                    ensure!(got.as_ref() == want.get(at), "{ops:?}: item {at}, reached by skipping, is {got:?} and not {:?}", want.get(at));
                    if got.is_none() {
                        break;
                    }
                    at += 1;
                }
                ensure!(open().last().as_ref() == want.last(), "{ops:?}: last() is not the last item");
                held(*n > 1 && ops.len() > 1, &[format!("stages:{}", ops.len()), bucket("n", *n)])
            },
        ),
        law(
            "long_streams",
            "always",
            cases(12, 100),
            || (100_000usize..1_000_000, size(1, 200_000), any::<u64>()).boxed(),
            |(n, k, s): &(usize, usize, u64)| {
                let d = data(*n, *s);
                let want: Vec<i64> = d.chunks_exact(*k).map(|b| b.iter().sum()).collect();
                eq("integrate_and_dump", &take_up_to(d.iter().copied().integrate_and_dump(*k), n + 1), &want)?;
                eq("integrate", &drain(d.iter().copied().integrate(), *n)?, &prefix_sums(&d))?;
                eq("chunks", &drain(d.iter().copied().chunks(*k), n + 1)?.concat(), &d)?;
                let got = drain(d.iter().copied().take_every(*k), *n)?;
                eq("take_every", &got, &d.iter().step_by(*k).copied().collect::<Vec<_>>())?;
                let few = (n / k).clamp(2, 5000);
                let mut count = 0;
                for (i, x) in d[..few].iter().copied().inflate(*k).enumerate() {
                    ensure!(i < few * k && x == d[i / k], "item {i} of {few} items inflated {k} times is {x}");
                    count += 1;
                }
                ensure!(count == few * k, "{count} items from {few} inflated {k} times");
                let mut count = 0;
                for (i, c) in d.iter().copied().wchunks(*k).enumerate() {
                    let want = &d[(i * k).min(*n)..(i * k + k).min(*n)];
                    ensure!(i <= n / k && c.len() == *k && c[..want.len()] == *want && c[want.len()..].iter().all(|x| *x == 0), "wchunks: chunk {i} of {k}");
                    count += 1;
                }
                ensure!(count >= n.div_ceil(*k), "wchunks: {count} chunks of {k} for {n} items");
                let two: Vec<[i64; 2]> = want.iter().map(|s| [*s, -3 * s]).collect();
                eq("nintegrate_and_dump", &take_up_to(d.iter().map(|x| [*x, -3 * x]).nintegrate_and_dump(*k), n + 1), &two)?;
                held(true, &[bucket("k", *k)])
            },
        ),
    ]
}

fn conv(x: &[i64], h: &[i64]) -> Vec<i64> {
    if x.is_empty() {
        return vec![];
    }
    let mut y = vec![0i64; x.len() + h.len() - 1];
    for (i, a) in x.iter().enumerate() {
        for (j, b) in h.iter().enumerate() {
            y[i + j] += a * b;
        }
    }
    y
}

fn nonv<const N: usize>(n: usize, h: &[i64], seed: u64) -> Result<(), String> {
    let d = rows::<N>(n, seed);
    let got = drain(d.iter().copied().nonvolve(h.to_vec()), n + h.len())?;
    for j in 0..N {
        let want = conv(&d.iter().map(|r| r[j]).collect::<Vec<_>>(), h);
        eq(&format!("nonvolve channel {j}"), &got.iter().map(|r| r[j]).collect::<Vec<_>>(), &want)?;
    }
    Ok(())
}

fn taps(seed: u64, m: usize) -> Vec<i64> {
    let mut r = Prng(seed ^ 0x5555);
    let kind = r.below(6);
    (0..m)
        .map(|i| match kind {
            0 => i64::from(i == m / 2),
            1 => 1,
                // Mostly zeros, or runs of them.
            2 => if r.below(4) == 0 { r.below(201) as i64 - 100 } else { 0 },
            _ => r.below(201) as i64 - 100,
        })
        .collect()
}

fn c19() -> Vec<Law> {
    vec![
        law(
            "convolve",
            "at least two taps and two samples",
            cases(6000, 100_000),
            || (size(0, 600), size(1, 80), any::<u64>()).boxed(),
            |(n, m, s): &(usize, usize, u64)| {
                let (x, h) = (data(*n, *s), taps(*s, *m));
                let got = drain(x.iter().copied().convolve(h.clone()), n + m)?;
                eq("convolve", &got, &conv(&x, &h))?;
                held(*n > 1 && *m > 1, &[bucket("n", *n), bucket("taps", *m), format!("short_input:{}", n < m)])
            },
        ),
        law(
            "nonvolve",
            "at least two taps and two samples",
            cases(5000, 80_000),
            || (size(0, 300), size(1, 60), any::<u64>()).boxed(),
            |(n, m, s): &(usize, usize, u64)| {
                let h = taps(*s, *m);
                match s % 8 {
                    0 => nonv::<1>(*n, &h, *s)?,
                    1 => nonv::<2>(*n, &h, *s)?,
                    2 => nonv::<3>(*n, &h, *s)?,
                    3 => nonv::<5>(*n, &h, *s)?,
                    4 => nonv::<6>(*n, &h, *s)?,
                    5 => nonv::<8>(*n, &h, *s)?,
                    6 => nonv::<17>(*n / 4, &h, *s)?,
                    _ => nonv::<4>(*n, &h, *s)?,
                }
                held(*n > 1 && *m > 1, &[bucket("n", *n), bucket("taps", *m), format!("short_input:{}", n < m)])
            },
        ),
        law(
            "every_way_of_reading",
            "at least two taps and two samples",
            cases(3000, 40_000),
            || (size(0, 200), size(1, 40), any::<u64>()).boxed(),
            |(n, m, s): &(usize, usize, u64)| {
                let h = taps(*s, *m);
                if s % 2 == 0 {
                    let d = data(*n, *s);
                    consumers("convolve", || d.iter().copied().convolve(h.clone()), *s)?;
                } else {
                    let d = rows::<3>(*n, *s);
                    consumers("nonvolve", || d.iter().copied().nonvolve(h.clone()), *s)?;
                }
                held(*n > 1 && *m > 1, &[bucket("n", *n), bucket("taps", *m)])
            },
        ),
        law(
            "real_and_complex_filters",
            "at least two taps and two samples",
            cases(3000, 50_000),
            || (wave(0, 400), prop::collection::vec((-2.0f64..2.0, -2.0f64..2.0), 1..40)).boxed(),
            |(w, h): &(Wave, Vec<(f64, f64)>)| {
                let x = w.samples();
                let n = if x.is_empty() { 0 } else { x.len() + h.len() - 1 };
                let re: Vec<f64> = h.iter().map(|t| t.0).collect();
                let y = drain(x.iter().copied().convolve(re.clone()), x.len() + h.len())?;
                let direct = |i: usize| -> f64 { (0..h.len()).filter(|&j| j <= i && i - j < x.len()).map(|j| re[j] * x[i - j]).sum() };
                let big = x.iter().fold(1e-300f64, |a, b| a.max(b.abs())) * h.len() as f64 * 4.0;
                same_wave("real convolve", &y, n, direct, |_| 1e-12 * big)?;
                let hc: Vec<C64> = h.iter().map(|t| C64::new(t.0, t.1)).collect();
                let xc: Vec<C64> = x.iter().enumerate().map(|(i, &a)| C64::new(a, x[x.len() - 1 - i])).collect();
                let y = drain(xc.iter().copied().convolve(hc.clone()), x.len() + h.len())?;
                ensure!(y.len() == n, "complex convolve: {} samples instead of {n}", y.len());
                for i in 0..n {
                    let want: C64 = (0..h.len()).filter(|&j| j <= i && i - j < xc.len()).map(|j| hc[j] * xc[i - j]).sum();
                    ensure!((y[i] - want).norm() <= 1e-12 * big * 4.0, "complex convolve: sample {i} is {}, expected {want}", y[i]);
                }
                held(h.len() > 1 && x.len() > 1, &[bucket("n", x.len()), bucket("taps", h.len())])
            },
        ),
        law(
            "convolution_is_local",
            "at least two taps and two samples",
            cases(1500, 20_000),
            || (recv_wave(0, 1500), prop::collection::vec(prop_oneof![4 => -2.0f64..2.0, 1 => Just(0.0), 1 => Just(1.0)], 1..40)).boxed(),
            |(w, h): &(Wave, Vec<f64>)| {
                // Each output depends on the samples under the filter alone, however strong or
                // broken the others are.
                let x = w.samples();
                let n = if x.is_empty() { 0 } else { x.len() + h.len() - 1 };
                let y = drain(x.iter().copied().convolve(h.clone()), x.len() + h.len())?;
                let z = drain(x.iter().map(|&a| [a, -a]).nonvolve(h.clone()), x.len() + h.len())?;
                ensure!(y.len() == n && z.len() == n, "{} and {} outputs instead of {n}", y.len(), z.len());
                for i in 0..n {
                    let under = || (0..h.len()).filter(|&j| j <= i && i - j < x.len()).map(|j| h[j] * x[i - j]);
                    let (want, size) = (under().sum::<f64>(), under().map(f64::abs).sum::<f64>());
                    if size < 1e306 {
                        let tol = 1e-12 * size + 1e-300;
                        ensure!((y[i] - want).abs() <= tol, "convolve: output {i} is {} instead of {want}", y[i]);
                        ensure!((z[i][0] - want).abs() <= tol && (z[i][1] + want).abs() <= tol, "nonvolve: output {i} is {:?} instead of {want}", z[i]);
                    }
                }
                held(h.len() > 1 && x.len() > 1, &[bucket("n", x.len()), bucket("taps", h.len())])
            },
        ),
        law(
            "long_convolutions",
            "always",
            cases(12, 150),
            || (prop_oneof![3 => 2_000usize..6_000, 1 => 70_000usize..140_000], size(1, 2500), any::<u64>()).prop_map(|(n, m, s)| (n, if n > 10_000 { 1 + m % 40 } else { m }, s)).boxed(),
            |(n, m, s): &(usize, usize, u64)| {
                let (x, h) = (data(*n, *s), taps(*s, *m));
                let got = drain(x.iter().copied().convolve(h.clone()), n + m)?;
                eq("convolve", &got, &conv(&x, &h))?;
                let y = drain(x.iter().map(|&a| [a, -a]).nonvolve(h.clone()), n + m)?;
                eq("nonvolve", &y.iter().map(|r| r[0]).collect::<Vec<_>>(), &conv(&x, &h))?;
                held(true, &[bucket("taps", *m)])
            },
        ),
    ]
}
